import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw  # noqa: E402

ctx = fw.Ctx("setup", "quick", 1)
try:
    r = ctx.tlc("RatLaws", open(os.path.join(fw.SPEC, "RatLaws.cfg")).read())
    if r.rc != 0:
        print(r.error)
        sys.exit(1)
    print("Rat override: %d pairs agree with the definitions" % r.distinct)
finally:
    ctx.cleanup()
