"""C07: hostile bytes, inside payloads (codec) and at the framing level (connections)."""
import codec, conn


def run(c):
    codec.run(c)
    if not c.violations:
        conn.run(c)
