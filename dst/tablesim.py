"""Station-table world for C04 and C05: small tables, independent parser."""
import random

COLS = ("USAF", "WBAN", "NAME", "CTRY", "ST", "ICAO", "LAT", "LON", "ELEV", "BEGIN", "END")


def make_rows(seed, n, tag):
    rng = random.Random("%s/%s" % (seed, tag))
    rows = []
    for i in range(n):
        usaf = rng.choice(["%06d" % rng.randint(1000, 998999), "A%05d" % rng.randint(0, 99999), "999999"])
        wban = rng.choice(["99999", "%05d" % rng.randint(1, 99998)])
        lat = round(rng.uniform(-80, 80), 3)
        lon = round(rng.uniform(-179, 179), 3)
        if rng.random() < 0.12:
            lat, lon = rng.choice([("", ""), (0.0, 0.0), ("", 5.0), (5.0, "")])
        begin = "%d%02d%02d" % (rng.randint(1931, 2010), rng.randint(1, 12), rng.randint(1, 28))
        end = "%d%02d%02d" % (rng.choice([2005, 2013, 2014, 2020, 2024]), rng.randint(1, 12), rng.randint(1, 28))
        rows.append([usaf, wban, "%s STATION %d" % (tag, i), rng.choice(["US", "CA", ""]), rng.choice(["NY", ""]),
                     rng.choice(["KABC", ""]), lat, lon, rng.choice([12.5, -3.0, ""]), begin, end])
    return rows


def table_text(rows):
    """The cleaned table as the library's own rebuild writes it."""
    return "".join("\t".join("%s" % (c + ".0" if j in () else c) for j, c in enumerate(r)) + "\n" for r in rows)


def csv_text(rows):
    head = '"USAF","WBAN","STATION NAME","CTRY","STATE","ICAO","LAT","LON","ELEV(M)","BEGIN","END"\n'
    return head + "".join(",".join('"%s"' % c for c in r) + "\n" for r in rows)


def expected(rows):
    out = []
    for r in rows:
        if r[6] in ("", 0.0) or r[7] in ("", 0.0):
            continue
        usaf, wban = r[0], r[1]
        out.append({"USAF": int(usaf) if usaf.isdigit() else usaf, "WBAN": None if wban == "99999" else wban,
                    "NAME": r[2], "CTRY": r[3] or None, "ST": r[4] or None, "ICAO": r[5] or None,
                    "LAT": float(r[6]), "LON": float(r[7]), "ELEV": float(r[8]) if r[8] != "" else None,
                    "BEGIN": int(r[9]), "END": int(r[10])})
    return out


def same_station(obj, exp):
    for k, v in exp.items():
        if getattr(obj, k) != v:
            return "%s is %r, the table says %r" % (k, getattr(obj, k), v)
    return None


def check_query(dc, op, candidates):
    """Run one query; candidates: list of acceptable tables (expected() lists).  Returns None or a complaint."""
    kind = op[0]
    if kind == "count":
        v = dc.get_station_count()
        return None if v in [len(c) for c in candidates] else "count is %r, the table has %s" % (v, [len(c) for c in candidates])
    if kind == "list":
        v = list(dc.get_stations())
        why = None
        for c in candidates:
            if len(v) == len(c):
                bad = [b for b in (same_station(o, e) for o, e in zip(v, c)) if b]
                if not bad:
                    return None
                why = bad[0]
        return why or "list has %d stations, the table has %s" % (len(v), [len(c) for c in candidates])
    if kind == "latlongs":
        v = dc.get_latlongs()
        if v is None:
            return "coordinates are None"
        v = [tuple(map(float, x)) for x in v]
        return None if v in [[(e["LAT"], e["LON"]) for e in c] for c in candidates] else "coordinates of %d stations differ from the table" % len(v)
    if kind == "tree":
        t = dc.get_kd_tree()
        if t is None:
            return "spatial index is None"
        v = [tuple(map(float, x)) for x in t.data]
        return None if v in [[(e["LAT"], e["LON"]) for e in c] for c in candidates] else "index of %d stations differs from the table" % len(v)
    if kind == "consistent":
        s, l, t, n = dc.get_stations(), dc.get_latlongs(), dc.get_kd_tree(), dc.get_station_count()
        if len(candidates) > 1:
            return None
        a = [(float(o.LAT), float(o.LON)) for o in s]
        b = [tuple(map(float, x)) for x in l]
        c = [tuple(map(float, x)) for x in t.data]
        return None if a == b == c and len(a) == n else "list, coordinates, index and count do not agree"
    # closest
    _, lat, lon, recent, mm = op
    try:
        o = dc.get_closest_station(lat, lon, minumum_recent_data=recent, match_max=mm)
    except ValueError:
        if any(not [e for e in c if e["END"] > recent] for c in candidates):
            return None
        return "no station found near (%s, %s) although some qualify" % (lat, lon)
    for c in candidates:
        ok = [e for e in c if e["END"] > recent]
        if not ok:
            continue
        best = min((e["LAT"] - lat) ** 2 + (e["LON"] - lon) ** 2 for e in ok)
        for e in ok:
            if abs((e["LAT"] - lat) ** 2 + (e["LON"] - lon) ** 2 - best) < 1e-12 and same_station(o, e) is None:
                return None
    return "closest station to (%s, %s) active after %d is not %s" % (lat, lon, recent, o)


def random_query(rng):
    k = rng.choice(["count", "list", "latlongs", "tree", "closest", "closest", "closest", "consistent"])
    if k == "closest":
        return ["closest", round(rng.uniform(-85, 85), 2), round(rng.uniform(-179, 179), 2),
                rng.choice([0, 20140000, 20130000, 20210000, 20300000]), rng.choice([100, 2, 5])]
    return [k]
