"""Builds what the checks share (the checks build it themselves if this did not run)."""
from vlib import ext

if __name__ == "__main__":
    if not ext.in_tree_is_current():
        print(ext.build("plain"))
    print("ready")
