"""sqlite3 behind fault points; real databases on the scratch disk."""
import sqlite3
import weakref

from . import engine

_connect = sqlite3.connect
SQL = None

ERR = {"db-locked": (sqlite3.OperationalError, "database is locked"),
       "db-ioerr": (sqlite3.OperationalError, "disk I/O error"),
       "db-full": (sqlite3.OperationalError, "database or disk is full"),
       "db-readonly": (sqlite3.OperationalError, "attempt to write a readonly database"),
       "db-malformed": (sqlite3.DatabaseError, "database disk image is malformed"),
       "db-cantopen": (sqlite3.OperationalError, "unable to open database file")}


class SimSQL:
    def __init__(self, faults=()):
        self.faults = {(f[0], f[1]): f[2] for f in faults}
        self.count = {}
        self.conns = []
        self.natural = 0         # errors sqlite itself raised

    def point(self, op, write):
        s = engine.CURRENT
        t = s.me() if s is not None else None
        if t is None:
            return
        s.point("sql")
        n = self.count.get(t.id, 0)
        self.count[t.id] = n + 1
        k = self.faults.get((t.id, n))
        if k is None:
            return
        if k == "kill":
            s.inject("kill")
            self.kill(t.proc)
            s.kill_proc(t.proc)
        if k == "db-locked":
            s.sleep(5.0)
        if k in ("db-full", "db-readonly") and not write:
            return
        if k == "db-cantopen" and op != "connect":
            return
        if k in ERR:
            s.inject(k)
            c, m = ERR[k]
            raise c(m)

    def kill(self, proc):
        for c in self.conns:
            if c._proc == proc:
                for cur in list(c._cursors):
                    try:
                        sqlite3.Cursor.close(cur)    # a killed process keeps no read lock either
                    except sqlite3.Error:
                        pass
                try:
                    sqlite3.Connection.close(c)      # uncommitted work is lost, locks are released
                except sqlite3.Error:
                    pass

    def run(self, fn):
        try:
            return fn()
        except sqlite3.Error as e:
            self.natural += 1
            self.last = str(e)
            s = engine.CURRENT
            if "locked" in str(e) and s is not None and s.me() is not None:
                s.inject("db-contention")
                s.sleep(5.0)
            raise


def _iswrite(sql):
    return not str(sql).lstrip().upper().startswith(("SELECT", "PRAGMA"))


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        self.connection._chk()
        if SQL is None:
            return super().execute(sql, *a)
        SQL.point("execute", _iswrite(sql))
        return SQL.run(lambda: super(SimCursor, self).execute(sql, *a))

    def executemany(self, sql, *a):
        self.connection._chk()
        if SQL is None:
            return super().executemany(sql, *a)
        SQL.point("execute", True)
        return SQL.run(lambda: super(SimCursor, self).executemany(sql, *a))

    def fetchone(self):
        self.connection._chk()
        if SQL is not None:
            SQL.point("fetch", False)
        return super().fetchone()

    def fetchall(self):
        self.connection._chk()
        if SQL is not None:
            SQL.point("fetch", False)
        return super().fetchall()


class SimConnection(sqlite3.Connection):
    _same = True
    _owner = None
    _proc = -1

    def _chk(self):
        if self._same and self._owner is not None and self._owner != engine.get_ident():
            raise sqlite3.ProgrammingError("SQLite objects created in a thread can only be used in that same thread.")

    def cursor(self, factory=SimCursor):
        self._chk()
        cur = super().cursor(factory)
        self._cursors.add(cur)
        return cur

    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)

    def executemany(self, sql, *a):
        return self.cursor().executemany(sql, *a)

    def commit(self):
        self._chk()
        if SQL is None:
            return super().commit()
        SQL.point("commit", True)
        SQL.run(super().commit)
        SQL.point("committed", False)

    def rollback(self):
        self._chk()
        if SQL is not None:
            SQL.point("rollback", False)
        return super().rollback()

    def __exit__(self, et, ev, tb):
        if et is None:
            try:
                self.commit()
            except sqlite3.Error:
                super().rollback()
                raise
        else:
            self.rollback()
        return False

    def close(self):
        self._chk()
        return super().close()


def sim_connect(database, timeout=5.0, detect_types=0, isolation_level="", check_same_thread=True, *a, **kw):
    if SQL is None:
        return _connect(database, timeout, detect_types, isolation_level, check_same_thread, *a, **kw)
    SQL.point("connect", False)
    kw.pop("factory", None)
    c = SQL.run(lambda: _connect(database, 0, detect_types, isolation_level, False, factory=SimConnection,
                                 **{k: v for k, v in kw.items() if k in ("cached_statements", "uri", "autocommit")}))
    s = engine.CURRENT
    c._cursors = weakref.WeakSet()
    c._same = check_same_thread
    c._owner = engine.get_ident()
    c._proc = s.me().proc if s is not None and s.me() is not None else -1
    SQL.conns.append(c)
    return c


def install():
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect
