import hashlib


def hashseed(seed, lane):
    """The string-hash seed a lane's process runs with."""
    return int(hashlib.sha256(f"hash:{seed}:{lane}".encode()).hexdigest()[:8], 16) % 4294967295 + 1
