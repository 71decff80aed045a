"""Shared machinery of the checks: TLC runs, verdicts, evidence, findings."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class MachineryError(Exception):
    """The check itself failed (exit 2): neither a pass nor a violation."""


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.ok = False
        self.out = ''
        self.rejects = []      # (case id, event index, clause)
        self.printed = []      # JSON objects printed with the SCN prefix
        self.error = None
        self.error_case = None
        self.coverage = {}


class Check:
    """Context of one check run."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self.spec_scenarios = 0
        self.random_scenarios = 0
        self.actions = {}
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.findings = load_findings(prop)
        d = os.path.join(EVIDENCE, 'replay')
        if os.path.isdir(d):
            for name in os.listdir(d):
                if name.startswith(prop + '-'):
                    os.remove(os.path.join(d, name))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, files=None, workers=4, timeout=800,
            simulate=None, depth=None, coverage=False, heap='4g'):
        """Runs TLC on a module of specs/ in a scratch copy."""
        wd = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for name in os.listdir(SPECS):
            if name.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, name), wd)
        with open(os.path.join(wd, 'run.cfg'), 'w') as f:
            f.write(cfg)
        for name, content in (files or {}).items():
            with open(os.path.join(wd, name), 'w') as f:
                f.write(content)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-cp', CP, 'tlc2.TLC', '-config', 'run.cfg', '-noGenerateSpecTE',
               '-metadir', os.path.join(wd, 'meta'), '-workers', str(workers)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
            if depth:
                cmd += ['-depth', str(depth)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd.append(module)
        res = TLCResult()
        try:
            p = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        out = p.stdout.decode('utf-8', 'replace')
        res.out = out
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct', out):
            pass
        if m:
            res.generated = int(m.group(1).replace(',', ''))
            res.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'The number of states generated: (\d+)', out)
        if m and not res.generated:
            res.generated = res.distinct = int(m.group(1))
        for line in out.splitlines():
            m = re.match(r'<<"REJECT", (-?\d+), (-?\d+), "(.*)">>$', line)
            if m:
                res.rejects.append((int(m.group(1)), int(m.group(2)), m.group(3)))
            elif line.startswith('"SCN '):
                res.printed.append(json.loads(json.loads(line)[4:]))
            else:
                m = re.match(r'<(\w+) line \d+, col \d+ to line \d+, col \d+ of '
                             r'module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)', line)
                if m:
                    k = m.group(2) + '.' + m.group(1)
                    res.coverage[k] = max(res.coverage.get(k, 0), int(m.group(4)))
        res.ok = (p.returncode == 0)
        if not res.ok:
            lines = [x for x in out.splitlines()
                     if not re.match(r'(Parsing|Semantic|Linting|Starting|Finished)', x)]
            first = [i for i, x in enumerate(lines) if x.startswith('Error')]
            res.error = '\n'.join(lines[first[0]:first[0] + 60] if first else lines[-30:])
            ms = re.findall(r'^(?:/\\ )?c = (\d+)$', out, re.M)
            if ms:
                res.error_case = int(ms[-1])
        shutil.rmtree(wd, ignore_errors=True)
        return res

    def model_check(self, module, cfg, workers=8, timeout=800, vacuity=True,
                    files=None, simulate=None, depth=None):
        """Exhaustive check of a specification; any failure of the pure model
        is a failure of the machinery, because the model does not depend on
        the code."""
        res = self.tlc(module, cfg, workers=workers, timeout=timeout,
                       coverage=vacuity, files=files, simulate=simulate,
                       depth=depth)
        if not res.ok:
            raise MachineryError('model %s: %s' % (module, res.error))
        if vacuity:
            never = [k for k, v in res.coverage.items()
                     if v == 0 and not k.endswith('.Init')]
            if never:
                raise MachineryError('model %s: actions never taken: %s'
                                     % (module, ', '.join(never)))
            for k, v in res.coverage.items():
                self.actions[k] = self.actions.get(k, 0) + v
        self.states += res.distinct
        self.transitions += res.generated
        return res

    def scenarios(self, module, cfg, timeout=600, **kw):
        """Scenarios that TLC prints while enumerating a Gen module."""
        res = self.tlc(module, cfg, workers=1, timeout=timeout, **kw)
        if not res.ok:
            raise MachineryError('scenario generator %s: %s' % (module, res.error))
        if not res.printed:
            raise MachineryError('scenario generator %s printed nothing' % module)
        self.spec_scenarios += len(res.printed)
        return res.printed

    def validate(self, module, cases, cfg=None, clauses=None, timeout=800,
                 chunk=4000, workers=8, known=None):
        """Checks recorded traces against a trace specification.

        cases: list of dicts with 'ev' (list of events) and configuration.
        Each case is one initial state; its behaviour must consume all events.
        """
        cfg = cfg or 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
        bad = []
        for start in range(0, len(cases), chunk):
            part = cases[start:start + chunk]
            # An evaluation error names the case it happened in; set it aside
            # and validate the others again.
            skip = set()
            while True:
                idx = [i for i in range(len(part)) if i not in skip]
                if not idx:
                    break
                data = json.dumps([part[i] for i in idx], ensure_ascii=True)
                if re.search(r'(?<![\w".])-?\d+\.\d|null', re.sub(r'"(?:[^"\\]|\\.)*"', '""', data)):
                    raise MachineryError('non-integer number or null in trace data')
                res = self.tlc(module, cfg, files={'cases.json': data},
                               workers=workers, timeout=timeout)
                if not res.ok:
                    if res.error_case is None:
                        raise MachineryError('trace spec %s: %s' % (module, res.error))
                    i = idx[res.error_case - 1]
                    skip.add(i)
                    bad.append((start + i, 0, 'ill-formed-trace'))
                    self.extra['tlc_error'] = res.error[-1500:]
                    if len(skip) < 4:
                        continue
                    bad += [(start + idx[cid - 1], l, clause) for cid, l, clause in res.rejects]
                    break
                for cid, l, clause in res.rejects:
                    bad.append((start + idx[cid - 1], l, clause))
                expected = sum(len(part[i]['ev']) + 1 for i in idx)
                if not res.rejects and res.distinct != expected:
                    raise MachineryError('trace spec %s explored %d states, '
                                         'expected %d' % (module, res.distinct, expected))
                self.states += res.distinct
                self.transitions += res.generated
                break
        self.traces += len(cases)
        self.events += sum(len(c['ev']) for c in cases)
        if cases and len(self.samples) < 4:
            self.samples.append(trim(cases[0]))
            self.samples.append(trim(cases[len(cases) // 2]))
        for i, l, clause in bad:
            case = cases[i]
            ev = case['ev'][l - 1] if 0 < l <= len(case['ev']) else None
            self.violation(dict(spec=module, clause=clause, event_index=l,
                                event=ev, case=case), clause)
        return bad

    # -- verdicts ------------------------------------------------------
    def violation(self, replay, clause):
        for text, pattern in self.findings:
            if pattern and re.search(pattern, json.dumps(replay)):
                if text not in self.known:
                    self.known.append(text)
                return
        if sum(v is not None and v[1] == clause for v in self.violations) >= 3 or \
           len(self.violations) >= 40:
            self.violations.append(None)
            return
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        replay = dict(replay, property=self.prop, seed=self.seed, tier=self.tier,
                      rerun='VERIF_SEED=%d VERIF_TIER=%s bin/check %s'
                            % (self.seed, self.tier, self.prop))
        with open(path, 'w') as f:
            json.dump(replay, f, indent=1, default=str)
        self.violations.append((path, clause))

    def finish(self, level='model_checking'):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   trace_events=self.events,
                   scenarios_from_specification=self.spec_scenarios,
                   scenarios_random=self.random_scenarios,
                   model_actions_taken=self.actions,
                   samples=self.samples[:4])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.start, 2),
                  violations=len(self.violations))
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        shown = set()
        for v in self.violations:
            if v is None:
                continue
            print('VIOLATION property=%s replay=%s clause=%s' % (self.prop, v[0], v[1]))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def trim(x, depth=0):
    if isinstance(x, dict):
        return {k: trim(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return [trim(v, depth + 1) for v in x[:12]]
    return x


def load_findings(prop):
    """Lines: 'known: property=<id> pattern=<regex> :: <text>'."""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'known: property=(\w+) pattern=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(3), m.group(2)))
    return res
