"""Checks that everything the harness needs is there (nothing has to be built: the code under test is imported)"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import core

core.setup_paths()
import hypothesis
print('hypothesis', hypothesis.__version__)
