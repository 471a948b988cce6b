"""Runs the script with its downloads redirected to the given local server. usage: c27_child.py BASE SCRIPT ARGS..."""
import ctypes
import runpy
import sys
import urllib.error
import urllib.request

sys.dont_write_bytecode = True
BASE, SCRIPT = sys.argv[1], sys.argv[2]
real = urllib.request.urlopen
arm = getattr(ctypes.CDLL(None), 'inj_arm', None)


def urlopen(url, *args, **kwargs):
    if arm is not None:
        arm()
    if BASE == 'unreachable':
        raise urllib.error.URLError(OSError(-2, 'Name or service not known'))
    name = (url.full_url if isinstance(url, urllib.request.Request) else url).rsplit('/', 1)[-1]
    return real(BASE + '/' + name, *args, **kwargs)


urllib.request.urlopen = urlopen
sys.argv = [SCRIPT] + sys.argv[3:]
runpy.run_path(SCRIPT, run_name='__main__')
