"""Runs checks/<id>.py inside the scratch copy; the parent is run.py."""
import importlib.util, json, os, sys, traceback
import vlib

def cover():
    """Lines of the code under test that ran in this process (a tool for looking at reach)."""
    seen, mon = set(), sys.monitoring
    def line(code, n):
        if code.co_filename.startswith(vlib.TREE):
            seen.add((code.co_filename[len(vlib.TREE):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    err = None
    seen = cover() if os.environ.get("VERIF_COVER") else None
    try:
        spec = importlib.util.spec_from_file_location(
            "check_" + pid, os.path.join(vlib.VERIF, "checks", pid + ".py"))
        mod = importlib.util.module_from_spec(spec)
        sys.path.insert(0, os.path.join(vlib.VERIF, "checks"))
        spec.loader.exec_module(mod)
        mod.run(ctx)
    except vlib.StopCheck:
        pass
    except Exception as e:
        err = traceback.format_exc()
        if any(f.filename.startswith(vlib.TREE) for f in traceback.extract_tb(e.__traceback__)):
            # raised inside the code under test
            try:
                ctx.fail("exception", "%s: %s" % (type(e).__name__, str(e)[:300]), trace=err[-1500:])
            except vlib.StopCheck:
                pass
            err = None
        else:
            print(err, flush=True)
    if seen is not None:
        json.dump(sorted(seen), open(os.environ["VERIF_COVER"], "w"))
    ctx.finish(err)
    os._exit(0 if err is None else 3)

main()
