from . import lendist

RULE = ("As C01, for the distance code: emission of every distance class and decoding of every distance symbol with "
        "unknown extra bits, compared with RFC 1951's table in every final abstract state.")
ASSUMPTIONS = ["BitReader::read_bit / BitWriter::write_bit deliver and emit one bit each (decided by C04)",
               "CodeTree::invert and CodeTree::decode_symbol are table look-ups in the tree (decided by C07)"]
TECHNIQUE = "abstract interpretation of MIR (affine domain, partitioned by code class)"
FLOOR = 2 * 29 * 30 + 2


def run(ctx):
    lendist.run(ctx, "distance")
