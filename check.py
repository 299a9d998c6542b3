#!/usr/bin/env python3
"""check.py <property id | all> [--tier quick|thorough] [--repo DIR]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
threading.stack_size(512 * 1024 * 1024)
from sa import report

if __name__ == '__main__':
  box = []
  t = threading.Thread(target=lambda: box.append(report.main(sys.argv[1:])))
  t.start()
  t.join()
  sys.stdout.flush()
  os._exit(box[0] if box else 2)
