# Loaded by every interpreter the checks start (also the sub-processes the code under
# test launches): drop the editable-install finder, so that "fluidimage" is the scratch
# copy of /repo's working tree which is first on PYTHONPATH (pure Python, never stale).
import sys

sys.meta_path[:] = [
    f for f in sys.meta_path if "mesonpy" not in type(f).__name__.lower()
]
