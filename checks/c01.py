from . import lendist

RULE = ("Abstract interpretation of the re-encoder (compressed_block on a block holding one reference whose length and "
        "distance are unknown members of one class of RFC 1951's tables) and of the parser (BlockIter::next on one "
        "length/distance symbol pair with unknown extra bits); in every final abstract state the emitted bits / the "
        "produced length are compared with the RFC's table.  One obligation per direction, length class and distance class.")
ASSUMPTIONS = ["BitReader::read_bit / BitWriter::write_bit deliver and emit one bit each (decided by C04)",
               "CodeTree::invert and CodeTree::decode_symbol are table look-ups in the tree (decided by C07)"]
TECHNIQUE = "abstract interpretation of MIR (affine domain, partitioned by code class)"
FLOOR = 2 * 29 * 30 + 2


def run(ctx):
    lendist.run(ctx, "length")
