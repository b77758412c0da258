"""Merkle commitments: an opening, a layer or a whole vector is accepted only if it hashes to the commitment."""
from engine import *

EXPLAIN = ("Guarded must-facts on the accepting exits of the Merkle verifier entry points: each required comparison must be a "
           "rejecting branch that no accepting path bypasses, with operands whose backward value-flow slice contains the leaf data, "
           "the opened path, the position and the commitment.")


def scheme(C, name):
    return C.fn(name, trait="MerkleTreeScheme", self_ty="BinaryMerkleTreeScheme")


def opening(C):
    """verify_opening"""
    f = scheme(C, "verify_opening")
    # (self, index, values, layer_depth, tree_depth, layer_digests, proof)
    C.need_cmp("opening.layer_len", "the revealed layer has exactly 2^layer_depth digests", f, "==", ["arg:4", "op:Shl", "int:1"], ["arg:6", "len"])
    C.need_cmp("opening.index_range", "the leaf index is below 2^tree_depth", f, "<", ["arg:2"], ["arg:5", "op:Shl", "int:1"])
    C.need_cmp("opening.root_eq", "the digest recomputed from the leaf values and the whole path equals the layer digest at the leaf's position", f, "==",
               ["arg:3", ("fn:hash_serialize", "~fn:.*hash.*", "~call:.*digest.*"), "READ", "fn:compress", "arg:4", "arg:5"], ["arg:6", "arg:2", ("op:Shr", "op:Div", "op:shr")])
    C.need_ok("opening.path_len", "the authentication path has tree_depth - layer_depth digests read from the proof", f, ("read_vec", "read"),
              args={1: ["arg:4", "arg:5", "op:Sub"]})


def layer(C):
    """verify_layer"""
    f = scheme(C, "verify_layer")
    # (self, root, layer_depth, layer_digests)
    C.need_cmp("layer.len", "the layer has exactly 2^layer_depth digests", f, "==", ["arg:3", "op:Shl", "int:1"], ["arg:4", "len"])
    C.need_cmp("layer.root_eq", "folding the whole layer gives the root", f, "==", ["arg:4", "fn:compress"], ["arg:2"])


def vector(C):
    """verify_vector"""
    f = scheme(C, "verify_vector")
    # (self, root, data, batch_size)
    C.need_cmp("vector.batch", "the data length is a multiple of the batch size", f, "==", ["arg:3", "arg:4", "len", ("op:Rem", "call:is_multiple_of")], ["int:0"])
    C.need_cmp("vector.root_eq", "hashing and folding the whole vector gives the root", f, "==", ["arg:3", "fn:compress", ("fn:hash_serialize", "~fn:.*hash.*")], ["arg:2"])


OBLIGATIONS = [opening, layer, vector]
MIN_OBLIGATIONS = 8
