"""The measurement files shipped with the package."""
import os

from .core import REPO

FOLDER = os.path.join(REPO, 'data')


def files(limit=None):
    out = []
    for name in sorted(os.listdir(FOLDER)) if os.path.isdir(FOLDER) else []:
        p = os.path.join(FOLDER, name)
        if name.endswith(('.uff', '.txt')) and (limit is None or os.path.getsize(p) <= limit):
            out.append(p)
    return out
