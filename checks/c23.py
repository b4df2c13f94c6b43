"""C23: see vlib/formats.py."""
from vlib import formats
from vlib.formats import case  # noqa


def main():
    return formats.main("C23", 700, 8000)


if __name__ == "__main__":
    raise SystemExit(main())
