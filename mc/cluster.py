"""A small stand-in of a SLURM cluster.

`sbatch` only queues what it is given; `pump` runs the queue with an
adversary deciding which task dies where.  Job scripts are executed by bash
with a recording `srun`, so the environment and the working directory of a
task are those the scripts really give it."""
import json
import os
import stat
import subprocess

SBATCH = r'''#!/bin/bash
q="$FAKE_QUEUE"
last="${@: -1}"
par=0; dep=""
for a in "$@"; do
  case "$a" in
    --parsable) par=1;;
    --dependency=*) dep="${a#--dependency=}";;
  esac
done
if [ ! -f "$last" ]; then
  echo "sbatch: error: Unable to open file $last" >&2
  echo "missing:$PWD:$last" >> "$q/errors"
  exit 1
fi
case "$dep" in
  ""|afterok:[0-9]*|afterany:[0-9]*) ;;
  *) echo "sbatch: error: Job dependency problem" >&2
     echo "dependency:$dep" >> "$q/errors"; exit 1;;
esac
n=$(cat "$q/next"); echo $((n+1)) > "$q/next"
printf '%s\n%s\n%s\n' "$PWD" "$last" "$dep" > "$q/$n.job"
if [ $par = 1 ]; then echo $n; else echo "Submitted batch job $n"; fi
'''
SRUN = r'''#!/bin/bash
{ printf '%s\n' "$PWD" "$@"; echo "--env"; env; } > "$FAKE_TASK"
'''


class Cluster:
    def __init__(self, d):
        self.d = d
        self.q = os.path.join(d, 'queue')
        self.bin = os.path.join(d, 'bin')
        os.makedirs(self.q)
        os.makedirs(self.bin)
        for name, text in (('sbatch', SBATCH), ('srun', SRUN)):
            p = os.path.join(self.bin, name)
            with open(p, 'w') as f:
                f.write(text)
            os.chmod(p, 0o755)
        with open(os.path.join(self.q, 'next'), 'w') as f:
            f.write('1000\n')
        self.seen = set()

    def env(self, **kw):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith('SLURM_'):
                del e[k]
        e['PATH'] = self.bin + os.pathsep + e['PATH']
        e['FAKE_QUEUE'] = self.q
        e['FAKE_TASK'] = os.path.join(self.d, 'task')
        e.update(kw)
        return e

    def errors(self):
        p = os.path.join(self.q, 'errors')
        return open(p).read().split('\n')[:-1] if os.path.exists(p) else []

    def queued(self):
        """Jobs submitted since the last call, in order."""
        out = []
        ids = sorted(int(f[:-4]) for f in os.listdir(self.q)
                     if f.endswith('.job'))
        for n in ids:
            if n in self.seen:
                continue
            self.seen.add(n)
            cwd, script, dep = open(os.path.join(
                self.q, '%d.job' % n)).read().split('\n')[:3]
            path = os.path.join(cwd, script)
            opts = {}
            for line in open(path):
                if line.startswith('#SBATCH --'):
                    k, v = line[len('#SBATCH --'):].rstrip('\n').split('=', 1)
                    opts[k] = v
                elif not line.startswith('#') and line.strip():
                    break
            out.append({'id': n, 'cwd': cwd, 'script': path, 'opts': opts,
                        'dep': int(dep.split(':')[1]) if dep else None,
                        'how': dep.split(':')[0] if dep else None})
        return out

    @staticmethod
    def indices(job):
        a = job['opts'].get('array')
        if a is None:
            return None
        out = []
        for part in a.split('%')[0].split(','):
            if '-' in part:
                lo, hi = part.split('-')
                out += list(range(int(lo), int(hi) + 1))
            else:
                out.append(int(part))
        return out

    def task(self, job, index=None):
        """(cwd, argv, env) of the srun of one task; None: the task dies
        because its log cannot be opened or nothing is run."""
        log = job['opts']['output'].replace('%A', str(job['id'])).replace(
            '%a', str(index))
        log = os.path.join(job['cwd'], log)
        if not os.path.isdir(os.path.dirname(log)):
            return None
        extra = {}
        if index is not None:
            ids = self.indices(job)
            extra = {'SLURM_ARRAY_JOB_ID': str(job['id']),
                     'SLURM_ARRAY_TASK_ID': str(index),
                     'SLURM_ARRAY_TASK_COUNT': str(len(ids)),
                     'SLURM_ARRAY_TASK_MIN': str(min(ids)),
                     'SLURM_ARRAY_TASK_MAX': str(max(ids))}
        rec = os.path.join(self.d, 'task')
        if os.path.exists(rec):
            os.remove(rec)
        subprocess.run(['bash', job['script']], cwd=job['cwd'],
                       env=self.env(**extra), check=False,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(rec):
            return None
        lines = open(rec).read().split('\n')
        k = lines.index('--env')
        env = dict(x.split('=', 1) for x in lines[k + 1:] if '=' in x)
        return lines[0], lines[1:k], env, log
