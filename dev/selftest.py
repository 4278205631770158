"""Developer self-test of the abstract interpreter: interpret the repository's own
test modules (all-constant inputs) and report tests whose assertions fail. This is
not a check: it only validates the transfer functions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import api, engine as E, lib, terms as T
from sa.engine import *
api.load()
def pytest_mod(m):
    class _: pass
    R = ClassV("raises", [E.OBJECT], {}, "pytest", native=True)
    def init(s, exc, *a, match=None, kw=()):
        if a:
            try: E.call(a[0], list(a[1:]), list(kw))
            except Raised as e:
                if E.isinstance_(e.value, exc): return
                raise
            E.throw("AssertionError", "DID NOT RAISE")
        s.attrs().set("exc", exc); s.attrs().set("value", None)
    def exit_(s, t, v, tb):
        if t is None: E.throw("AssertionError", "DID NOT RAISE")
        s.attrs().set("value", v)
        return E.isinstance_(v, E.getattr_(s, "exc"))
    R.ns["__init__"]=NativeF("i", init, rawkw=True); R.ns["__enter__"]=NativeF("e", lambda s: s); R.ns["__exit__"]=NativeF("x", exit_)
    ident = NativeF("deco", lambda *a, kw=(): NativeF("d", lambda f: f), rawkw=True)
    def param(names, vals, kw=()):
        def d(f):
            PARAMS[id(f)] = (T.const(names), vals); return f
        return NativeF("d", d)
    mark = ModV("mark"); mark.dyn = lambda n: NativeF("p", param, rawkw=True) if n=="parametrize" else ident
    return {"raises": R, "mark": mark, "fixture": ident, "param": E.Unk("param")}
E.NATIVE_MODULES["pytest"] = lambda: lib._mk("pytest", pytest_mod)
ok = bad = 0
PARAMS={}
only = sys.argv[1:] 
for f in sorted(os.listdir("/repo/tests")):
    if not f.startswith("test_") or not f.endswith(".py"): continue
    name = f[:-3]
    E.SOURCE_PATHS[name] = ("/repo/tests/"+f, "tests/"+f, False)
    T.set_path(T.Path()); E.LOADING[0]=True
    try:
        m = E.import_module(name)
    except Raised as e:
        print("LOAD", f, e, E.loc_str(e.loc)); continue
    except T.Unsupported as e:
        print("LOAD-UNSUP", f, e, E.loc_str(T.CUR_LOC[0])); continue
    finally:
        E.LOADING[0]=False
    for n, v in list(m.ns.items()):
        if not n.startswith("test_") or (only and n not in only): continue
        T.set_path(T.Path()); E.STACK.clear(); lib.reset_path_state()
        try:
            if id(v) in PARAMS:
                nm, vals = PARAMS[id(v)]
                for x in E.tolist(vals):
                    if nm.count(","): E.call(v, list(E.tolist(x)))
                    else: E.call(v, [x])
            else:
                E.call(v, [])
            ok += 1
        except Raised as e:
            bad += 1; print("FAIL", f, n, str(e)[:300], E.loc_str(e.loc))
        except (T.Unsupported, T.NeedChars, T.PathLimit) as e:
            bad += 1; print("UNSUP", f, n, str(e)[:200], E.loc_str(T.CUR_LOC[0]))
        except Exception as e:
            bad += 1
            import traceback
            print("CRASH", f, n, type(e), str(e)[:200], E.loc_str(T.CUR_LOC[0])); traceback.print_exc(limit=-3)
        finally:
            E.JOURNAL.restore()
print(ok, "ok", bad, "bad")
