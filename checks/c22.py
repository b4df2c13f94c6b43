"""C22: see vlib/formats.py."""
from vlib import formats
from vlib.formats import case  # noqa


def main():
    return formats.main("C22", 3000, 30000)


if __name__ == "__main__":
    raise SystemExit(main())
