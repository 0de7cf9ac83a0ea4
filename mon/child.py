"""A new interpreter: child.py JOB OUT. Runs the programs of the job under its settings (see checks/c21.py)."""
import os
import pickle
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    with open(sys.argv[1], 'rb') as f:
        job = pickle.load(f)
    import numpy as np
    if 'print options' in job:
        np.set_printoptions(**job['print options'])
    if 'seed' in job:
        np.random.seed(job['seed'])
    if job.get('umask') is not None:
        os.umask(job['umask'])
    from mon import prog
    if 'warnings' in job:
        import warnings
        warnings.simplefilter(job['warnings'])
    if 'numpy errors' in job:
        np.seterr(**job['numpy errors'])
    if 'files' in job:
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (job['files'], job['files']))
    if job.get('gc') is False:
        import gc
        gc.disable()
    if 'recursion' in job:
        sys.setrecursionlimit(job['recursion'])
    result = []
    said = sys.stdout
    if job.get('output') == 'none':
        sys.stdout = None
    elif job.get('output') == 'thrown away':
        sys.stdout = open(os.devnull, 'w')

    def programs():
        for folder, program, names, relative, called in job['programs']:
            os.makedirs(folder)
            if relative:
                os.chdir(folder)
            result.append(prog.whole(program, folder, names=names, relative=relative, called=called))
    if job.get('thread'):
        import threading
        thread = threading.Thread(target=programs)
        thread.start()
        thread.join()
    else:
        programs()
    sys.stdout = said
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(result, f)


if __name__ == '__main__':
    main()
