"""Shared machinery of the conformance checks: build harnesses from /repo's working
tree, run them to obtain traces, have TLC judge the traces, write the evidence."""
import json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """the check itself could not do its work (exit 2)"""


class Broken(Exception):
    """the library fails before there is a trace to judge"""


class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.actions = {}
        self.samples = []
        self.models = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.bins = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- build
    def build(self, items):
        """items: list of (name, source, [flags], [extra sources]); compiled in parallel from
        /repo's current tree"""
        def one(it):
            name, src, flags, extra = (list(it) + [[], []])[:4]
            exe = os.path.join(self.out, name)
            cmd = ["g++", "-w", "-O1", "-std=gnu++17", "-I" + os.path.join(REPO, "include"), "-I" + HARN] + list(flags) + \
                  [os.path.join(HARN, src)] + list(extra) + ["-o", exe]
            for attempt in (1, 2):
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                if p.returncode == 0:
                    break
            if p.returncode != 0:
                m = re.search(r"^.*error: .*$", p.stdout, re.M)
                if m and "No space left" not in p.stdout:
                    # the harnesses use the documented interface only
                    raise Broken("a program using the documented interface (%s) no longer compiles: %s" % (name, m.group(0)[:300]), p.stdout[-6000:])
                raise CheckError("compilation of %s failed:\n%s" % (name, p.stdout[-4000:]))
            self.bins[name] = exe
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(one, i) for i in items]:
                f.result()

    # ---------------------------------------------------------------- traces
    def record(self, name, env=None, sub="", args=(), allow_empty=False):
        """run a harness; returns its list of section traces"""
        d = os.path.join(self.out, "tr_" + name + sub)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = dict(os.environ, VERIF_TIER=self.tier, VERIF_SEED=str(self.seed))
        if env:
            e.update(env)
        p = subprocess.run([self.bins[name], d] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           timeout=3000)
        if p.returncode != 0:
            raise CheckError("harness %s failed: %s" % (name, p.stdout[-2000:]))
        fs = sorted(glob.glob(os.path.join(d, "*.ndjson")), key=lambda f: int(os.path.basename(f)[:-7]))
        if not fs and not allow_empty:
            raise CheckError("harness %s recorded nothing" % name)
        return fs

    def _tlc(self, spec, cfg, env, tag, extra=(), heap="3g", timeout=3000):
        meta = os.path.join(self.out, "meta_" + tag)
        e = dict(os.environ)
        e.update(env)
        e["TMPDIR"] = self.out
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.out, "-cp", JAR, "tlc2.TLC", "-config", cfg, "-metadir", meta,
               "-noGenerateSpecTE", "-nowarning"] + list(extra) + [spec]
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    @staticmethod
    def _stats(o):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model(self, spec, cfg=None, env=None, workers=4, extra=(), heap="4g", tag=None, timeout=3000):
        """exhaustive (or simulated) run of a specification on its own; an error here is a fault of
        the specification, not of the library"""
        tag = tag or ("model_" + spec + "_" + (cfg or "").replace("/", "_"))
        o = self._tlc(spec + ".tla", (cfg or spec) + ".cfg", env or {}, tag, ["-workers", str(workers)] + list(extra), heap, timeout)
        if "No error has been found" not in o and "-simulate" not in extra:
            raise CheckError("specification %s: TLC reports\n%s" % (spec, o[-3000:]))
        g, d = self._stats(o)
        self.states += d
        self.transitions += g
        self.models.append(dict(spec=spec, cfg=cfg or spec, distinct=d, generated=g))
        return o

    def _judge_file(self, spec, cfg, path, tag, env):
        """None if TLC accepts the trace in path, else (line number, event, tlc output)"""
        with open(path) as f:
            n = sum(1 for _ in f)
        e = dict(env or {})
        e["TRACE"] = path
        o = self._tlc(spec + ".tla", (cfg or spec) + ".cfg", e, tag, ["-workers", "1"])
        g, d = self._stats(o)
        if "TRACE-ACCEPTED" in o and "No error has been found" in o:
            return None, g, d, n
        m = re.search(r'"TRACE-REJECTED", (\d+)', o)
        if m:
            line = int(m.group(1))
            return (line, o), g, d, n
        m = re.search(r"Error: Invariant (\w+) is violated", o)
        if m:
            ls = re.findall(r"(?:/\\ )?\bl = (\d+)", o)
            return (max(1, int(ls[-1]) - 1) if ls else 1, "invariant " + m.group(1) + "\n" + o), g, d, n
        raise CheckError("TLC gave no verdict on %s (%s):\n%s" % (path, spec, o[-3000:]))

    def validate(self, spec, files, cfg=None, rerun=None, env=None, shards=None, weight=None, label=None, clause=None):
        """Have TLC decide each recorded section.  rerun(section index) must record the section again
        and return its file: a rejection counts only if it repeats."""
        shards = shards or NCPU
        infos = []
        for f in files:
            with open(f) as fh:
                lines = fh.readlines()
            infos.append((weight(f, lines) if weight else os.path.getsize(f), f, lines))
        infos.sort(key=lambda x: -x[0])
        bins = [[0, []] for _ in range(min(shards, len(infos)))]
        for w, f, lines in infos:
            b = min(bins, key=lambda b: b[0])
            b[0] += w
            b[1].append((f, lines))
        tag0 = (label or spec)

        def one(k):
            res = []
            todo = list(bins[k][1])
            att = 0
            while todo:
                path = os.path.join(self.out, "shard_%s_%d_%d.ndjson" % (tag0, k, att))
                idx = []
                with open(path, "w") as o:
                    for f, lines in todo:
                        idx.append((f, len(lines)))
                        o.writelines(lines)
                rej, g, d, n = self._judge_file(spec, cfg, path, "%s_%d_%d" % (tag0, k, att), env)
                res.append((g, d, n, len(idx)))
                os.unlink(path)
                if rej is None:
                    return res, None
                line, o = rej
                pos = line
                for f, cnt in idx:
                    if pos <= cnt:
                        return res, (f, pos, o)
                    pos -= cnt
                return res, (idx[-1][0], idx[-1][1], o)
            return res, None
        t = time.time()
        with ThreadPoolExecutor(len(bins)) as ex:
            outs = [f.result() for f in [ex.submit(one, k) for k in range(len(bins))]]
        for f in files:
            with open(f) as fh:
                for ln in fh:
                    m = re.match(r'\{"e":"(\w+)"', ln)
                    if m:
                        self.actions[tag0 + "." + m.group(1)] = self.actions.get(tag0 + "." + m.group(1), 0) + 1
        for res, rej in outs:
            for g, d, n, c in res:
                self.transitions += g
                self.states += d
                self.events += n
                self.traces += c
        if len(self.samples) < 4 and files:
            with open(files[len(files) // 2]) as fh:
                ls = fh.readlines()
            self.samples.append("%s: %s" % (tag0, ls[min(len(ls) - 1, 1)].strip()[:600]))
        self.notes.setdefault("tlc_s", {})[tag0] = round(time.time() - t, 1)
        for res, rej in outs:
            if rej:
                self._confirm(spec, cfg, rej, rerun, env, tag0)

    def _confirm(self, spec, cfg, rej, rerun, env, tag0):
        f, pos, o = rej
        path = f
        if rerun:
            path = rerun(f)
        r2, g, d, n = self._judge_file(spec, cfg, path, "confirm_" + tag0 + str(len(self.violations)), env)
        if r2 is None:
            raise CheckError("a rejection of %s line %d did not repeat" % (f, pos))
        line = r2[0]
        with open(path) as fh:
            lines = fh.readlines()
        ev = lines[min(line, len(lines)) - 1].strip()
        rp = os.path.join(self.out, "violation_%d.ndjson" % len(self.violations))
        shutil.copy(path, rp)
        with open(rp + ".txt", "w") as fh:
            fh.write("property %s\nspecification %s (config %s)\ntrace %s\nfirst event no action explains: line %d\n%s\n\nreplay: TRACE=%s tlc -config %s.cfg %s.tla (in /verif/spec)\n\n%s\n"
                     % (self.id, spec, cfg or spec, rp, line, ev[:3000], rp, cfg or spec, spec, r2[1][-3000:]))
        sec = json.loads(lines[0]).get("sec", "?") if lines else "?"
        self.violations.append((rp, "%s section %s line %d: %s" % (spec, sec, line, ev[:400])))

    def violation(self, text, payload=""):
        rp = os.path.join(self.out, "violation_%d.txt" % len(self.violations))
        with open(rp, "w") as fh:
            fh.write(text + "\n" + payload)
        self.violations.append((rp, text))

    def traces_of(self, name, spec, cfg=None, env=None, henv=None, sub="", shards=None, weight=None):
        """record with harness `name` and validate with `spec`"""
        fs = self.record(name, henv, sub)

        def rerun(f):
            with open(f) as fh:
                sec = json.loads(fh.readline())["sec"]
            fs2 = self.record(name, henv, sub + "_again", [sec])
            return fs2[0]
        self.validate(spec, fs, cfg, rerun, env, shards, weight, label=spec + "_" + name + sub)
        return fs

    # ---------------------------------------------------------------- end
    def finish(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"], events=self.events, events_per_action=self.actions, spec_models=self.models)
        cov.update(self.notes)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kf in known_findings(self.id):
            print("KNOWN-FINDING: property=%s %s" % (self.id, kf))
        for rp, text in self.violations[:1]:
            print(text)
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
        for rp, text in self.violations[1:]:
            print("also: " + text)
        if not self.violations:
            print("%s held on everything explored: %d traces, %d events, %d states, %.0f s" % (self.id, self.traces, self.events, self.states, time.time() - self.t0))
        for p in glob.glob(os.path.join(self.out, "tr_*")) + list(self.bins.values()):
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            elif os.path.exists(p) and not os.environ.get("VERIF_KEEP"):
                os.unlink(p)
        return 1 if self.violations else 0


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res
