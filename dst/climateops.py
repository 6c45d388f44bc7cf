"""Weather-station operations in one process: a stub archive and geocoding service, a scratch directory, a small station table."""
import gzip
import os
import shutil
import sys
import tempfile
import types

from . import engine, gsodsim, tablesim

ROWS = None
DAYS = {}


def signals():
    """A place where a signal may be delivered while the library waits for someone else."""
    s = engine.CURRENT
    if s is not None and s.me() is not None:
        engine._ipoint()


class Answer:
    def __init__(self, url, data):
        self.url, self.data, self.headers, self.status = url, data, {}, 200

    def read(self, n=-1):
        signals()
        d, self.data = (self.data, b"") if n is None or n < 0 else (self.data[:n], self.data[n:])
        return d

    def info(self): return {}
    def getheader(self, k, default=None): return default
    def geturl(self): return self.url
    def getcode(self): return 200
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def urlopen(url, *a, **k):
    signals()
    if not isinstance(url, str):
        url = url.full_url
    name = url.rsplit("/", 1)[1]
    station, year = name[:-len(".op.gz")].rsplit("-", 1)
    if "404" in station:
        raise OSError("550 no such file")
    return Answer(url, gzip.compress(gsodsim.text_for(station, year, 1, 3).encode(), mtime=0))


class Place:
    def __init__(self, a):
        self.address, self.latitude, self.longitude = a, float(len(a)), -float(len(a))


class Nominatim:
    def __init__(self, *a, **k):
        pass

    def geocode(self, a, *x, **k):
        signals()
        return None if a == "nowhere" else Place(a)


def before_loading():
    geopy, loc, gc, exc = (types.ModuleType("geopy" + x) for x in ("", ".location", ".geocoders", ".exc"))
    loc.Location, gc.Nominatim = Place, Nominatim
    exc.GeopyError = exc.GeocoderServiceError = exc.GeocoderTimedOut = OSError
    geopy.location, geopy.geocoders, geopy.exc, geopy.__path__ = loc, gc, exc, []
    sys.modules.update({"geopy": geopy, "geopy.location": loc, "geopy.geocoders": gc, "geopy.exc": exc})


def after_loading():
    import fluids.design_climate as dc
    dc.urlopen = urlopen


ADDRESSES = ["Paris", "01001", "nowhere", "Fredericton, NB"]
STATIONS = [[724050, "13743"], [None, "13743"], [404040, None], [712650, None]]


def operation(rng):
    k = rng.choice(["text", "text", "data", "closest", "geocode", "geocode", "rebuild"])
    if k == "text":
        return {"op": k, "station": rng.choice(STATIONS), "year": rng.choice([1999, 2014]), "warm": rng.choice(["", "", "whole", "Exception", "empty"])}
    if k == "data":
        return {"op": k, "station": rng.choice(STATIONS), "years": rng.choice([[2012, 2012], [2011, 2013]])}
    if k == "closest":
        return {"op": k, "at": [round(rng.uniform(-80, 80), 2), round(rng.uniform(-170, 170), 2)], "since": rng.choice([0, 20140000, 20230000]), "most": rng.choice([1, 3, 100])}
    if k == "geocode":
        return {"op": k, "address": rng.choice(ADDRESSES), "store": rng.choice(["new", "new", "nodir", "asked"])}
    return {"op": "rebuild"}


class Scene:
    """A fresh scratch directory and freshly loaded module state for one execution of an operation."""

    def __init__(self, op):
        import fluids.design_climate as dc
        global ROWS
        self.dc, self.op = dc, op
        self.root = tempfile.mkdtemp(prefix="dst-climate-", dir=os.environ.get("DST_TMP", "/tmp"))
        if ROWS is None:
            ROWS = tablesim.make_rows(5, 12, "T")
        with open(os.path.join(self.root, "isd-history-cleaned.tsv"), "w") as f:
            f.write(tablesim.table_text(ROWS))
        with open(os.path.join(self.root, "history.csv"), "w") as f:
            f.write(tablesim.csv_text(ROWS[:4]))
        dc.folder = self.root
        dc.data_dir = self.root
        for n in ("_stations", "_latlongs", "_station_count", "_kd_tree", "simple_geopy_cache", "geolocator"):
            if hasattr(dc, n):
                setattr(dc, n, None)
        dc.geolocator_disk_cache_loc = os.path.join(self.root, "no" if op.get("store") == "nodir" else "", "cache.sqlite3")
        if op.get("store") == "asked":
            dc.geocode(op["address"]) if op["address"] != "nowhere" else dc.geopy_cache()
        if op.get("warm"):
            st = gsodsim.station_key(op["station"])
            os.makedirs(os.path.join(self.root, str(op["year"])))
            with open(os.path.join(self.root, str(op["year"]), st + ".op"), "w") as f:
                f.write({"whole": gsodsim.text_for(st, op["year"], 1, 3), "Exception": "Exception", "empty": ""}[op["warm"]])

    def __call__(self):
        dc, op = self.dc, self.op
        k = op["op"]
        if k == "text":
            return dc.get_station_year_text(op["station"][0], op["station"][1], op["year"], data_dir_override=self.root)
        if k == "data":
            a, b = op["years"]
            s = dc.IntegratedSurfaceDatabaseStation(op["station"][0], op["station"][1], "X", "US", None, None, 40.0, -80.0, 5.0, a * 10000 + 101, b * 10000 + 1231)
            d = dc.StationDataGSOD(s, data_dir_override=self.root)
            return [d.month_average_temperature(a, b, minimum_days=1), d.month_average_windspeed(a, b, minimum_days=1)]
        if k == "closest":
            return repr(dc.get_closest_station(op["at"][0], op["at"][1], op["since"], op["most"]))
        if k == "geocode":
            return dc.geocode(op["address"])
        return dc.get_clean_isd_history(dest=os.path.join(self.root, "new.tsv"), url=os.path.join(self.root, "history.csv"))

    def close(self):
        c = getattr(self.dc, "simple_geopy_cache", None)
        if c is not None:
            try:
                c.connection.close()
            except Exception:
                pass
            self.dc.simple_geopy_cache = None
        shutil.rmtree(self.root, ignore_errors=True)
