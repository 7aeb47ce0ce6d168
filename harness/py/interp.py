"""Running scripts through the SLAT interpreter."""
import io, os, warnings
warnings.simplefilter('ignore')
from contextlib import redirect_stdout, redirect_stderr
import SlatInterpreter

COUNT = 0


def run(*texts):
    """run scripts one after another, as files named on the command line; -> what was written after the copies of the scripts themselves"""
    global COUNT
    paths = []
    for t in texts:
        COUNT += 1
        paths.append('.script%d.slat' % COUNT)
        with open(paths[-1], 'w') as f:
            f.write(t)
    out = io.StringIO()
    try:
        with redirect_stdout(out), redirect_stderr(io.StringIO()):
            SlatInterpreter.main(['slat'] + paths)
    finally:
        for p in paths:
            os.remove(p)
    got = out.getvalue()
    for t in texts:
        got = got.replace(t, '', 1)
    return got
