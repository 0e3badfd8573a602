"""python -m vf.worker PROP SUB SHARD NSHARDS OUT : run one sub-check shard, write a JSON result."""
import hashlib, json, logging, os, sys, time, traceback, warnings


def main():
    prop, name, shard, nshards, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    from vf import env as vfenv
    vfenv.setup_path()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    budget = float(os.environ.get("VF_BUDGET", "600"))
    t0 = time.time()
    res = dict(prop=prop, sub=name, shard=shard, status="ok", evaluations=0, skipped=0, nontrivial=[],
               labels={}, samples=[], message=None, case=None)
    try:
        from vf import core
        import hypothesis
        from hypothesis import given, settings, seed, HealthCheck, Phase
        import numpy as np
        np.seterr(all="ignore")
        s = core.find_sub(prop, name)
        total = s.quick if tier != "thorough" else s.thorough
        scale = float(os.environ.get("VF_SCALE", "1"))
        n = max(1, int(np.ceil(total * scale / nshards)))
        h = int(hashlib.sha256(("%s/%s/%d/%d" % (prop, name, seed0, shard)).encode()).hexdigest()[:12], 16)
        st = dict(best=None, bestlen=None, first=None, tfail=None)
        distinct = set()

        def body(case):
            now = time.time()
            if st["tfail"] is not None and now - st["tfail"] > 90:
                return                                   # stop shrinking, keep what we have
            if st["tfail"] is None and now - t0 > budget:
                res["skipped"] += 1
                return
            text = core.dumps(case)
            case = json.loads(text)                      # exactly what a replay will see
            ctx = core.Ctx()
            msg = core.execute(s, case, ctx)
            if st["tfail"] is None:
                res["evaluations"] += 1
                for l in ctx.labels:
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if ctx.trivial_flag is False:
                    d = hashlib.sha1(text.encode()).hexdigest()[:16]
                    if d not in distinct:
                        distinct.add(d)
                        if len(res["samples"]) < 3 and len(text) < 2000:
                            res["samples"].append(case)
            if msg is not None:
                if st["tfail"] is None:
                    st["tfail"] = now
                    st["first"] = (case, msg)
                if st["best"] is None or len(text) <= st["bestlen"]:
                    st["best"], st["bestlen"] = (case, msg), len(text)
                raise core.Violation(msg)

        test = given(s.strategy())(body)
        test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example],
                        phases=[Phase.generate] if os.environ.get("VF_FAST") else [Phase.generate, Phase.shrink])(test)
        test = seed(h)(test)
        try:
            test()
        except core.HarnessError:
            raise
        except BaseException as e:
            if st["tfail"] is None:
                raise
        if st["tfail"] is not None:
            res["status"] = "violation"
            res["case"], res["message"] = st["best"]
        res["nontrivial"] = sorted(distinct)
    except BaseException as e:
        res["status"] = "error"
        res["message"] = "".join(traceback.format_exception(e))[-6000:]
    res["wall_s"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
