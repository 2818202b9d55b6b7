"""Writing .dist-info directories of generated projects."""
import os

from . import project as P


def write_dist(root, name, version, files, dirname=None, metadata=None, record=None):
    """*files* are relative to *root*; returns the path of the .dist-info directory."""
    d = os.path.join(root, dirname or f"{name}-{version}.dist-info")
    meta = metadata if metadata is not None else f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\nSummary: x\n\nBody\n"
    P.write_file(os.path.join(d, "METADATA"), meta)
    if record is None:
        rel = os.path.basename(d)
        record = "".join(f"{f},sha256=x,1\n" for f in files) + f"{rel}/METADATA,,\n{rel}/RECORD,,\n"
    P.write_file(os.path.join(d, "RECORD"), record)
    return d
