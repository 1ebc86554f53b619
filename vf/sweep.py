"""python3 -m vf.sweep DRIVER MODULE SHARDS RUNS BASESEED [driver args]: large runs outside the registered checks"""
import os, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from . import core, build


def main():
    driver, module, shards, runs, base = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    args = sys.argv[6:]
    c = core.Check("sweep-%s-%d" % (module, os.getpid()), "thorough", 1)
    exe = os.path.join(c.work, driver)
    shutil.copy(build.build_driver(driver), exe)
    bad = 0

    def one(k):
        tr = os.path.join(c.work, "%d.jsonl" % k)
        c.drive(exe, ["--n", runs, "--seed", base + k] + args, tr, 1500)
        r = c.validate(module, tr)
        if r and r[0] is not None:
            lines, at = c.run_of(tr, r[0])
            p = "/tmp/bad-%s-%d.jsonl" % (module, base + k)
            open(p, "w").write("\n".join(lines) + "\n")
            print("BAD", base + k, p, at, lines[at - 1][:300], flush=True)
            os.unlink(tr)
            return 1
        os.unlink(tr)
        return 0
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        bad = sum(ex.map(one, range(shards)))
    print("done", bad, "bad of", shards)
    shutil.rmtree(c.work, ignore_errors=True)


main()
