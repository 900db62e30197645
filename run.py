"""run.py ID [--tier quick|thorough] [--replay FILE]: runs one check."""
import importlib
import logging
import os
import shutil
import sys
import tempfile

logging.disable(logging.WARNING)

from mc import core  # pylint: disable=wrong-import-position


def main():
  pid = sys.argv[1]
  mod = importlib.import_module(f'checks.{pid.lower()}')
  scratch = tempfile.mkdtemp(prefix='mc_')
  os.environ['TMPDIR'] = tempfile.tempdir = scratch
  try:
    rc = core.main(mod.CHECK, sys.argv[2:])
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(rc)


if __name__ == '__main__':
  main()
