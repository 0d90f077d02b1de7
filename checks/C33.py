"""C33: a cluster run is completed by check and rescue, whatever jobs die."""
import itertools
import json
import os
import shutil
import subprocess
import sys
from argparse import Namespace

LEVEL = "model_checking"
RULE = ("every set of array tasks and merges that die in the first "
        "submission, each followed by every listed second round, over job "
        "arrays of one to three (four) tasks and one or two metallicities, "
        "started from inside and outside the run folder; the scripts are "
        "really executed by a shell against a stand-in of SLURM; distinct by "
        "the sequence of submitted jobs")
ASSUMPTIONS = ["sbatch and srun are stand-ins that record the job, its working "
               "directory and environment; SLURM starts a dependent job only "
               "if all tasks it depends on succeeded",
               "in the logic family a task is a model that writes the file of "
               "its rank; in the real family it is the generated python "
               "script with scripted evolution steps, killed by os._exit"]
HANG_S = 240
METS = [1.0, 0.45, 0.0001]
STR = {1.0: '1e+00', 0.45: '4.5e-01', 0.0001: '1e-04'}
OPTS = ['partition', 'account', 'email', 'exclude', 'walltime',
        'mem_per_cpu', 'max_concurrent_jobs']
DIRECTIVE = {'partition': 'partition', 'account': 'account',
             'email': 'mail-user', 'exclude': 'exclude', 'walltime': 'time',
             'mem_per_cpu': 'mem-per-cpu'}
SET = {'partition': 'pA', 'account': 'aA', 'email': 'x@a', 'exclude':
       'n[1-3],n7', 'walltime': '1-02:00:00', 'mem_per_cpu': '4G',
       'max_concurrent_jobs': 3}
NEW = {'partition': 'pB', 'account': 'aB', 'email': 'y@b', 'exclude': 'm9',
       'walltime': '00:30:00', 'mem_per_cpu': '16G',
       'max_concurrent_jobs': 2}


def bounds(tier):
    return {"tasks": 3 if tier == 'quick' else 4, "metallicities": 2,
            "rounds": 4}


def cases(tier):
    q = tier == 'quick'
    out = []
    cwds = ['in', 'out', 'rel']
    for n in range(1, 4 if q else 5):
        for m in ((1, 2) if n < 4 else (1,)):
            for masks in itertools.product(range(2 ** n), repeat=m):
                for second in ('none', 'first', 'all'):
                    if second != 'none' and not any(masks):
                        continue
                    for merge in ([0], [1]) if m == 1 else (
                            [0, 0], [1, 0], [0, 1], [1, 1]):
                        if any(k and j for k, j in zip(masks, merge)):
                            continue      # that merge never starts
                        cs = cwds if n * m <= 2 or not q else ['in', 'out']
                        if q and n * m == 6:
                            cs = ['out']
                            if second == 'all' and merge != [0, 0]:
                                continue
                        for cwd in cs:
                            out.append(dict(f='logic', n=n, m=m,
                                            masks=list(masks), second=second,
                                            merge=merge, cwd=cwd,
                                            ans='yes'))
    # arrays with ranks of more than one digit
    for bits in [1 << k for k in range(12)] + [3 << 10, 0x801, 0xfff,
                                               0xc03, 0]:
        for cwd in ('in', 'out'):
            out.append(dict(f='logic', n=12, m=1, masks=[bits], merge=[0],
                            second='none', cwd=cwd, ans='yes'))
    for bits in (1 << 5, 1 << 105 | 1 << 17, 1 << 100, 1 << 109 | 1):
        out.append(dict(f='logic', n=110, m=1, masks=[bits], merge=[0],
                        second='none', cwd='in', ans='yes'))
    # a batch file is lost after its merge failed; whole arrays died early
    for n in (2, 3):
        for lost in range(n):
            for cwd in cwds:
                out.append(dict(f='logic', n=n, m=1, masks=[0], merge=[1],
                                second='none', cwd=cwd, ans='yes',
                                lose=[[0, lost]]))
        out.append(dict(f='logic', n=n, m=2, masks=[0, 0], merge=[1, 1],
                        second='none', cwd='out', ans='yes',
                        lose=[[1, 0]]))
    for masks in itertools.product(range(4), repeat=2):
        for twice in (False, True):
            for cwd in ('in', 'out'):
                out.append(dict(f='logic', n=2, m=2, masks=list(masks),
                                second='none', merge=[0, 0], cwd=cwd,
                                ans='yes', early=True, twice=twice))
    # the user does not want it, or wants to submit by hand
    for ans in ('no', 'later', 'junk'):
        for masks in itertools.product(range(4), repeat=2):
            for merge in ([0, 0], [1, 0], [0, 1], [1, 1]):
                if any(k and j for k, j in zip(masks, merge)):
                    continue
                for cwd in ('in', 'out'):
                    out.append(dict(f='logic', n=2, m=2, masks=list(masks),
                                    second='none', merge=merge, cwd=cwd,
                                    ans=ans))
    # options
    combos = []
    for o in OPTS:
        for a, b in itertools.product((0, 1), repeat=2):
            combos.append(({o} if a else set(), {o} if b else set()))
            combos.append((set(OPTS) - (set() if a else {o}),
                           set(OPTS) - (set() if b else {o})))
    combos.append((set(OPTS), set()))
    combos.append((set(), set(OPTS)))
    for a, b in combos:
        for masks in ([1], [2], [5], [7]):
            c = dict(f='opts', n=3, m=1, masks=masks, a=sorted(a),
                     b=sorted(b), cwd='out', ans='yes')
            if c not in out:
                out.append(c)
    # a population with the wrong number of systems is never called complete
    for delta in (-1, 1):
        for keep in (False, True):
            out.append(dict(f='count', delta=delta, keep=keep, m=2))
    for n, nb in itertools.product((1, 2, 3, 5), (1, 2, 3, 4)):
        out.append(dict(f='size', n=n, nb=nb))
    # the real scripts
    real = []
    for n in (1, 2) if q else (1, 2, 3):
        for ram in (True, False):
            for kill in (['none'], ['early'], ['evolve', 0], ['evolve', 1],
                         ['evolve', 2], ['write', 0], ['write', 1],
                         ['write', 2], ['write', 4]):
                for rank in range(n):
                    real.append(dict(f='real', n=n, ram=ram, kill=kill,
                                     rank=rank, mkill=None))
            for mk in range(0, 7):
                real.append(dict(f='real', n=n, ram=ram, kill=['none'],
                                 rank=0, mkill=mk))
    for kill, mk in ((['none'], None), (['write', 1], None),
                     (['none'], 3)):
        real.append(dict(f='real', n=11, ram=True, kill=kill, rank=10,
                         mkill=mk))
    return real + out


# ---------------------------------------------------------------- set-up

def ini_text(nb, mets, ram=True):
    import posydon.popsyn as P
    p = os.path.join(os.path.dirname(P.__file__),
                     'population_params_default.ini')
    out = []
    for line in open(p):
        key = line.split('=')[0].strip()
        if key == 'number_of_binaries':
            line = '  number_of_binaries = %d\n' % nb
        elif key == 'metallicities':
            line = '  metallicities = %r\n' % (mets,)
        elif key == 'optimize_ram':
            line = '  optimize_ram = %s\n' % ram
        elif key == 'dump_rate':
            line = '  dump_rate = 1\n'
        elif key == 'extra_columns':
            line = '  extra_columns = {}\n'
        out.append(line)
    return ''.join(out)


def expected_split(nb, n):
    q, r = divmod(nb, n)
    out, k = [], 0
    for i in range(n):
        s = q + (1 if i < r else 0)
        out.append(list(range(k, k + s)))
        k += s
    return out


class World:
    """The run folder, the cluster, and what should be true of them."""

    def __init__(self, R, d, case, nb, ram=True, setup_opts=None):
        from mc.cluster import Cluster
        self.R, self.case, self.nb = R, case, nb
        self.n = case['n']
        self.mets = METS[:case['m']]
        self.cl = Cluster(d)
        self.run = os.path.join(d, 'runs', 'pop')
        os.makedirs(self.run)
        self.else_ = os.path.join(d, 'elsewhere')
        os.makedirs(self.else_)
        with open(os.path.join(self.run, 'pop.ini'), 'w') as f:
            f.write(ini_text(nb, self.mets, ram))
        o = dict(ini_file='pop.ini', job_array=self.n, partition=None,
                 account=None, email=None, exclude=None,
                 walltime='23:00:00', merge_walltime='12:00:00',
                 mem_per_cpu='9G', max_concurrent_jobs=None)
        o.update(setup_opts or {})
        self.setup_opts = o
        from posydon.CLI.popsyn.setup import setup_popsyn_function
        with at(self.run, self.cl.env()):
            quiet(setup_popsyn_function, Namespace(**o))
        self.done = {z: set() for z in self.mets}
        self.merged = {z: False for z in self.mets}
        self.ran = []
        self.dirs = set()

    def temp(self, z):
        return os.path.join(self.run, STR[z] + '_Zsun_batches')

    def popfile(self, z):
        return os.path.join(self.run, STR[z] + '_Zsun_population.h5')

    def submit_first(self):
        subprocess.run(['sh', 'slurm_submit.sh'], cwd=self.run,
                       env=self.cl.env(), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, check=True)

    def check(self, ans, opts=None):
        """Run posydon-popsyn check as a user; returns (rc, prompts)."""
        from posydon.CLI.popsyn.check import check_popsyn_function
        cwd, arg = {'in': (self.run, '.'),
                    'out': (self.else_, self.run),
                    'rel': (os.path.dirname(self.run), 'pop')}[
            self.case.get('cwd', 'in')]
        o = dict(run_folder=arg, job_array=None, merge_walltime=None)
        o.update({k: None for k in OPTS})
        o.update(opts or {})
        prompts = []

        def answer(prompt=''):
            prompts.append(prompt)
            if len(prompts) > 20:
                raise RuntimeError("asks for ever")
            if 'index' in prompt.lower() and '(yes/no)' not in prompt:
                return '0'
            if ans == 'later':
                return 'no' if 'submit' in prompt.lower() and \
                    'scripts' in prompt.lower() and \
                    'create' not in prompt.lower() else 'yes'
            return {'yes': 'yes', 'no': 'no', 'junk': 'perhaps'}[ans]
        import builtins
        old = builtins.input
        builtins.input = answer
        try:
            with at(cwd, self.cl.env()):
                rc = quiet(check_popsyn_function, Namespace(**o))
            self.stray = [f for f in os.listdir(cwd) if f != 'pop'] \
                if cwd != self.run \
                else []
        finally:
            builtins.input = old
        return rc, prompts

    def pump(self, jobs, dies, merge_dies, real=None):
        """Run the given jobs; dies(met, rank) and merge_dies(met)."""
        R = self.R
        okjobs = set()
        for job in jobs:
            R.step()
            if job['dep'] is not None and job['dep'] not in okjobs \
                    and job['how'] == 'afterok':
                R.outcome('not started')
                continue
            ids = self.cl.indices(job)
            ok = True
            for i in ([None] if ids is None else ids):
                t = self.cl.task(job, i)
                R.must(t is not None, "job %s of %s cannot start its task %s "
                       "in %s" % (job['id'], job['script'], i, job['cwd']))
                cwd, argv, env, log = t
                R.eq(os.path.realpath(cwd), os.path.realpath(self.run),
                     "working directory of the task")
                R.check(env.get('PATH_TO_POSYDON') ==
                        os.environ['PATH_TO_POSYDON'],
                        "PATH_TO_POSYDON of a task: %r" %
                        env.get('PATH_TO_POSYDON'))
                pd = os.environ['PATH_TO_POSYDON_DATA'].rstrip('/')
                R.check(env.get('PATH_TO_POSYDON_DATA', '').rstrip('/') == pd,
                        "PATH_TO_POSYDON_DATA of a task: %r, started with %r"
                        % (env.get('PATH_TO_POSYDON_DATA'), pd))
                R.eq(argv[0], 'python', "command of a task")
                z = float(argv[2])
                R.check(z in self.mets, "task of metallicity %r" % z)
                s = env if real is None else env
                with open(log, 'w') as f:
                    f.write("start\n")
                good = self.one(z, i, argv, s, dies, merge_dies, real)
                with open(log, 'a') as f:
                    f.write("done\n" if good else
                            "slurmstepd: error: *** JOB CANCELLED DUE TO "
                            "TIME LIMIT ***\n")
                ok = ok and good
            if ok:
                okjobs.add(job['id'])

    def one(self, z, index, argv, env, dies, merge_dies, real):
        R = self.R
        if index is not None:
            R.check(argv[1].endswith('run_metallicity.py'),
                    "array task runs %r" % argv[1])
            rank, size = self.rank_size(env)
            R.check(size == self.n, "a task of %s thinks the array has %s "
                    "jobs instead of %s" % (z, size, self.n))
            R.check(0 <= rank < self.n and rank == index,
                    "task %s of %s has rank %s" % (index, z, rank))
            R.check(rank not in self.done[z],
                    "rank %s of %s is evolved again though it finished"
                    % (rank, z))
            self.ran.append((z, rank))
            how = dies(z, rank)
            if real is not None:
                good = real(argv, env, how)
                self.dirs.add(z) if os.path.isdir(self.temp(z)) else None
            else:
                if how != 'early':
                    os.makedirs(self.temp(z), exist_ok=True)
                    self.dirs.add(z)
                good = how is None
                if good:
                    with open(os.path.join(
                            self.temp(z),
                            'evolution.combined.%d.h5' % rank), 'w') as f:
                        json.dump(expected_split(self.nb, size)[rank], f)
            if good:
                self.done[z].add(rank)
            return good
        R.check(argv[1].endswith('merge_metallicity.py'),
                "merge task runs %r" % argv[1])
        R.check(not self.merged[z], "%s is merged again" % z)
        R.check(self.done[z] == set(range(self.n)),
                "%s is merged with only the jobs %s of %d"
                % (z, sorted(self.done[z]), self.n))
        how = merge_dies(z)
        if real is not None:
            good = real(argv, env, how)
        else:
            good = how is None
            if good:
                got = []
                for f in sorted(os.listdir(self.temp(z))):
                    got += json.load(open(os.path.join(self.temp(z), f)))
                R.check(sorted(got) == list(range(self.nb)),
                        "merged binaries of %s: %s" % (z, got))
                shutil.copy(cached_pop(len(got)), self.popfile(z))
                shutil.rmtree(self.temp(z))
        if good:
            self.merged[z] = True
        return good

    def rank_size(self, env):
        from posydon.popsyn.io import binarypop_kwargs_from_ini
        with at(self.run, env):
            kw = binarypop_kwargs_from_ini('pop.ini')
        return int(kw['RANK']), int(kw['size'])

    def expect(self):
        """What has to be submitted: {met: missing ranks}."""
        return {z: set(range(self.n)) - self.done[z] for z in self.mets
                if not self.merged[z]}

    def judge(self, jobs, want, opts=None):
        """The submitted jobs are exactly the missing work."""
        R = self.R
        arrays, merges = {}, {}
        ids = {}
        for j in jobs:
            b = os.path.basename(j['script'])
            z = [z for z in self.mets if b.startswith(STR[z] + '_Zsun')][0]
            ix = self.cl.indices(j)
            if ix is None:
                R.check(z not in merges, "two merges of %s" % z)
                merges[z] = j['dep']
            else:
                R.check(z not in arrays, "two arrays of %s" % z)
                R.check(len(set(ix)) == len(ix), "repeated tasks %s" % ix)
                arrays[z] = (j['id'], set(ix), j)
        miss = {z: v for z, v in want.items() if v}
        R.check({z: a[1] for z, a in arrays.items()} == miss,
                "resubmitted tasks %s, missing %s"
                % ({z: sorted(a[1]) for z, a in arrays.items()}, miss))
        R.check(set(merges) == set(want),
                "merges resubmitted for %s, needed for %s"
                % (sorted(merges), sorted(want)))
        for z, dep in merges.items():
            if z in arrays:
                R.check(dep == arrays[z][0],
                        "merge of %s waits for %s" % (z, dep))
        R.state(tuple(sorted((z, tuple(sorted(a[1])))
                             for z, a in arrays.items())),
                tuple(sorted(merges)))
        return arrays


class at:
    """Working directory and environment of a command."""

    def __init__(self, cwd, env):
        self.cwd, self.env = cwd, env

    def __enter__(self):
        self.oc, self.oe = os.getcwd(), dict(os.environ)
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)

    def __exit__(self, *a):
        os.chdir(self.oc)
        os.environ.clear()
        os.environ.update(self.oe)


def quiet(f, *a):
    """Call f without its output, also that of its child processes."""
    import contextlib
    import io
    import warnings
    old = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*a)
    finally:
        os.dup2(old[0], 1)
        os.dup2(old[1], 2)
        for fd in old + (null,):
            os.close(fd)


_POPS = {}


def cached_pop(k):
    if k not in _POPS:
        import atexit
        import tempfile
        from mc import popfile
        d = tempfile.mkdtemp(prefix='c33pop')
        atexit.register(shutil.rmtree, d, True)
        p = os.path.join(d, 'p%d.h5' % k)
        popfile.write(p, [(i, 'rlo') for i in range(k)])
        _POPS[k] = p
    return _POPS[k]


# ---------------------------------------------------------------- execution

def execute(case, R):
    os.environ.setdefault('PATH_TO_POSYDON', '/repo/')
    with R.tmp() as d:
        globals()['do_' + case['f']](case, R, d)


def rounds(w, case, R, dies, merge_dies, real=None, ans='yes', limit=6):
    """check / resubmit until the run is complete."""
    for k in range(limit):
        want = w.expect()
        rc, prompts = w.check(ans)
        jobs = w.cl.queued()
        R.check(not w.cl.errors(), "submission fails: %s" % w.cl.errors())
        R.check(not getattr(w, 'stray', []) , "check leaves %s in the current "
                "directory instead of the run folder" % getattr(
                    w, 'stray', []))
        if not want:
            R.eq(rc, 0, "return code of a complete run")
            R.check(not jobs and not prompts, "a complete run submits %s and "
                    "asks %s" % (jobs, prompts))
            R.outcome('complete', k)
            return k
        if any(z not in w.dirs for z in want):
            R.eq(rc, 1, "return code without the batch folders")
            R.check(not jobs, "submits %s without the batch folders" % jobs)
            R.outcome('no folder')
            # as the user would: start all over
            w.submit_first()
            jobs = w.cl.queued()
            jobs = [j for j in jobs if any(
                os.path.basename(j['script']).startswith(STR[z] + '_Zsun')
                for z in want if z not in w.dirs)]
            w.pump(jobs, dies, merge_dies, real)
            continue
        incomplete = any(want.values())
        if ans in ('no', 'junk'):
            R.check(not jobs, "submits %s against the answer" % jobs)
            R.eq(rc, 2, "return code if nothing is done")
            R.check(len(prompts) >= 1, "never asked")
            R.outcome('declined')
            return k
        if ans == 'later' and incomplete:
            R.check(not jobs, "submits %s against the answer" % jobs)
            R.eq(rc, 2, "return code if the scripts are not submitted")
            subprocess.run(['sh', 'resubmit_slurm.sh'], cwd=w.run,
                           env=w.cl.env(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            jobs = w.cl.queued()
            R.check(not w.cl.errors(), "submission fails: %s"
                    % w.cl.errors())
        else:
            R.eq(rc, 0 if incomplete else 2, "return code of a resubmission")
        w.judge(jobs, want)
        w.pump(jobs, dies, merge_dies, real)
    R.fail("the run is not complete after %d rescues" % limit)


def do_logic(case, R, d):
    w = World(R, d, case, nb=2 * case['n'] + 1)
    kinds = 'early' if case.get('early') else 'mid'
    st = {'round': 0}
    second_left = {}

    def dies(z, rank):
        i = w.mets.index(z)
        if st['round'] == 0:
            return kinds if case['masks'][i] >> rank & 1 else None
        if st['round'] == 1 and (case.get('twice') or
                                 case['second'] == 'all'):
            return kinds
        if st['round'] == 1 and case['second'] == 'first':
            first = second_left.setdefault(z, rank)
            return kinds if first == rank else None
        return None

    def merge_dies(z):
        i = w.mets.index(z)
        if st['round'] == 0 and case['merge'][i]:
            return 'mid'
        return None
    w.submit_first()
    jobs = w.cl.queued()
    R.check(not w.cl.errors(), "submission fails: %s" % w.cl.errors())
    w.judge(jobs, w.expect())
    w.pump(jobs, dies, merge_dies)
    for i, rank in case.get('lose', []):
        z = w.mets[i]
        os.remove(os.path.join(w.temp(z), 'evolution.combined.%d.h5' % rank))
        w.done[z].discard(rank)
    st['round'] = 1
    orig = w.pump

    def pump(*a, **k):
        orig(*a, **k)
        st['round'] += 1
    w.pump = pump
    rounds(w, case, R, dies, merge_dies, ans=case['ans'])
    if case['ans'] in ('yes', 'later'):
        for z in w.mets:
            R.check(w.merged[z], "%s never merged" % z)


def do_opts(case, R, d):
    a = {k: SET[k] for k in case['a']}
    b = {k: NEW[k] for k in case['b']}
    w = World(R, d, case, nb=6, setup_opts=a)
    w.submit_first()
    jobs = w.cl.queued()
    check_opts(R, w, jobs, w.setup_opts, {}, 'setup')
    w.pump(jobs, lambda z, r: 'mid' if case['masks'][0] >> r & 1 else None,
           lambda z: None)
    want = w.expect()
    rc, _ = w.check('yes', b)
    jobs = w.cl.queued()
    R.check(not w.cl.errors(), "submission fails: %s" % w.cl.errors())
    R.eq(rc, 0, "return code")
    w.judge(jobs, want)
    arr = [j for j in jobs if w.cl.indices(j) is not None]
    check_opts(R, w, arr, w.setup_opts, b, 'rescue')
    w.pump(jobs, lambda z, r: None, lambda z: None)
    R.check(all(w.merged.values()), "not merged")


def check_opts(R, w, jobs, first, over, what):
    for j in jobs:
        arr = w.cl.indices(j) is not None
        for o in OPTS:
            v = over.get(o, None)
            v = first[o] if v is None else v
            if not arr and o in ('exclude', 'walltime',
                                 'max_concurrent_jobs'):
                continue
            if o == 'max_concurrent_jobs':
                t = j['opts']['array'].split('%')
                got = int(t[1]) if len(t) > 1 else None
            else:
                got = j['opts'].get(DIRECTIVE[o])
            R.check(got == v, "%s of the %s job: %r instead of %r"
                    % (o, what, got, v))
        if not arr:
            R.eq(j['opts'].get('time'), first['merge_walltime'],
                 "wall time of the merge")
        R.outcome(what, tuple(sorted(j['opts'])))


def do_count(case, R, d):
    case = dict(case, n=2, cwd='out')
    w = World(R, d, case, nb=4)
    w.submit_first()
    w.pump(w.cl.queued(), lambda z, r: None, lambda z: None)
    rc, _ = w.check('yes')
    R.eq(rc, 0, "return code of the complete run")
    z = w.mets[1]
    shutil.copy(cached_pop(4 + case['delta']), w.popfile(z))
    if case['keep']:
        os.makedirs(w.temp(z))
        for k in range(2):
            open(os.path.join(w.temp(z), 'evolution.combined.%d.h5' % k),
                 'w').close()
    rc, prompts = w.check('yes')
    R.check(rc != 0, "a population of the wrong size passes the check")
    jobs = w.cl.queued()
    R.outcome(rc, len(jobs))
    if rc == 2 and prompts:
        # it offered to resubmit: then it has to resubmit something
        R.check(len(jobs) > 0, "claims to have resubmitted, but did not")


def do_size(case, R, d):
    """Every task of an array gets work, or the set-up refuses."""
    try:
        w = World(R, d, dict(case, m=1), nb=case['nb'])
    except ValueError:
        R.check(case['nb'] < case['n'], "set-up of %(nb)d binaries in %(n)d "
                "jobs is refused" % case)
        R.outcome('refused')
        return
    R.check(case['nb'] >= case['n'], "set-up of %(nb)d binaries in %(n)d "
            "jobs leaves jobs without work" % case)
    w.submit_first()
    w.pump(w.cl.queued(), lambda z, r: None, lambda z: None)
    R.check(all(w.merged.values()), "not merged")


def do_real(case, R, d):
    import pandas as pd
    case = dict(case, m=1, cwd='out')
    nb = 2 * case['n'] + 1
    w = World(R, d, case, nb=nb, ram=case['ram'])
    st = {'first': True, 'mfirst': True}

    def dies(z, rank):
        if st['first'] and rank == case['rank'] and case['kill'] != ['none']:
            st['first'] = False
            return case['kill']
        return None

    def merge_dies(z):
        if st['mfirst'] and case['mkill'] is not None:
            st['mfirst'] = False
            return ['write', case['mkill']]
        return None
    early = case['kill'] == ['early']

    def real(argv, env, how):
        return run_script(w, argv, env, how)
    w.submit_first()
    w.pump(w.cl.queued(), dies, merge_dies, real)
    if early and case['n'] == 1:
        pass
    resync(w)
    rounds(w, case, R, dies, merge_dies, real)
    for z in w.mets:
        with pd.HDFStore(w.popfile(z), 'r') as s:
            o, h = s['oneline'], s['history']
            m = s['mass_per_metallicity']
        R.eq([int(i) for i in o.index], list(range(nb)),
             "binaries of the population")
        R.eq(sorted(set(int(i) for i in h.index)), list(range(nb)),
             "histories of the population")
        R.eq(int(m['number_of_systems'].iloc[0]), nb, "number of systems")
        R.check(len(h) == nb * int(len(h) / nb), "history rows %d" % len(h))
    left = sorted(f for f in os.listdir(w.run) if f.endswith('.h5'))
    R.eq(left, [STR[z] + '_Zsun_population.h5' for z in w.mets],
         "data files in the run folder")
    R.check(not os.path.exists(w.temp(w.mets[0])) or not os.listdir(
        w.temp(w.mets[0])), "batch files left behind")


def resync(w):
    """A merge killed after the population was complete leaves it complete;
    whether it is, is told from the file alone."""
    import pandas as pd
    for z in w.mets:
        p = w.popfile(z)
        if os.path.exists(p) and not w.merged[z]:
            try:
                with pd.HDFStore(p, 'r') as s:
                    n = len(s['oneline'])
                    ok = n == w.nb and 'mass_per_metallicity' in s
                    len(s['history'])
            except Exception:
                ok = False
            w.R.check(ok, "an unfinished merge looks like a population")
            w.merged[z] = ok


def run_script(w, argv, env, how):
    """Run a generated script in a child process which may be killed."""
    if how == ['early']:
        return False
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('C33_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            for k in list(os.environ):
                if k.startswith('SLURM_'):
                    del os.environ[k]
            os.environ.update(env)
            os.chdir(w.run)
            import runpy
            import pandas as pd
            from posydon.binary_evol.simulationproperties import \
                SimulationProperties
            from mc import popstub

            class Log(list):
                def append(self, x):
                    list.append(self, x)
                    if how and how[0] == 'evolve' and \
                            len({i for i, _ in self}) > how[1]:
                        os._exit(9)
            SimulationProperties.from_ini = staticmethod(
                lambda *a, **k: popstub.make_props({}, Log()))
            if how and how[0] == 'write':
                left = [how[1]]

                def wrap(cls, name):
                    orig = getattr(cls, name)

                    def f(self, *a, **k):
                        if left[0] <= 0:
                            self.flush()
                            os._exit(9)
                        left[0] -= 1
                        return orig(self, *a, **k)
                    setattr(cls, name, f)
                wrap(pd.HDFStore, 'append')
                wrap(pd.HDFStore, 'close')
            sys.argv = [argv[1]] + argv[2:]
            runpy.run_path(os.path.join(w.run, os.path.basename(argv[1])),
                           run_name='__main__')
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 71
        finally:
            sys.stdout.flush()
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status) == 0
