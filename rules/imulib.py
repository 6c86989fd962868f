"""IMU preintegration: the pieces of ImuModel and ImuState as terms"""
import ir, vg, modlib, modref
from modlib import Obj
APPEND = r"vector<.*ImuModel::History.*>::(emplace_back|push_back)"
W = "models/imu_model.cxx ImuModel::%s"


def load():
    m = modlib.load(roots=("^vi_", "__cxx_global_var_init"), src=["models/imu_model.cxx", "models/imu_state.cxx"], keep=modlib.KEEP + [APPEND])
    return m, modlib.globals_of(m)


def graph(ctx, m, name):
    ctx.add("functions", name)
    return vg.VG(m, m.find("^vi_%s$" % name), summaries=modlib.EIGEN + [(r"UTCTime::operator-\(", modlib.timediff), (r"UTCTime::toSec\(", modlib.seconds)])


def offsets(m):
    f = lambda t: {n: o for n, o, s, _ in m.fields("mc::" + t)}
    return f("models::ImuModel::History"), f("models::ImuState"), f("meas::ImuSample"), f("math::Quat<double>")


def appends(g):
    return [e for e in g.events if e.kind == "call" and __import__("re").search(APPEND, e.dem)]


def owner(o):
    """does this memory belong to the model (argument 0)"""
    while o[0] == "deref":
        t = o[1]
        if t.op == "ptr":
            o = t.a[0]
        elif t.op == "init":
            o = t.a[0]
        else:
            return False
    return o == ("arg", 0)
