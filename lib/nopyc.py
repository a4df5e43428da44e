"""Compile the code under test from source every time (a stale .pyc of an edited
file must never be used), while installed libraries keep their .pyc files."""
import importlib._bootstrap_external as _be


def install(repo):
    real = _be.cache_from_source
    repo = repo.rstrip("/") + "/"

    def cache_from_source(path, *args, **kwargs):
        if str(path).startswith(repo):
            raise NotImplementedError
        return real(path, *args, **kwargs)
    _be.cache_from_source = cache_from_source
