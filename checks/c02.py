import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import wire_check
main(lambda: wire_check.run("C02", "reply"))
