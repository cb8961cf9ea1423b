#!/usr/bin/env python3
"""Writes known_findings.jsonl and regress/ from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = lambda s: json.loads(s)
OPEN = [
 ("P10", "small", "panic", '{"p":[],"s":[[0,0,-1,-16383],[-16383,0,-1,-1],[-1,-16383,-1,-1]]}', "three long nearly degenerate segments: debug assertion on an infinite term (release builds give a malformed diagram, as does the original)"),
 ("P02", "small", "edge-prev", '{"p":[],"s":[[0,8191,0,0],[-8191,8190,0,8191]]}', "two long segments one unit off symmetric: an edge is left without a predecessor (also in the original)"),
 ("P02", "small", "edge-prev", '{"p":[[2303977,3455967]],"s":[[0,2303977,1151988,2303977],[2303977,3455965,3455882,3455965]]}', "a point two units above the end of a segment at 22 bits: an edge is left without a predecessor"),
 ("P01", "small", "vertex", '{"p":[[-1,-1]],"s":[[-16383,-1,0,0],[0,-16383,0,0]]}', "a point one unit from two nearly axis-parallel segments: vertex off by 6e-5 (also in the original)"),
 ("P05", "small", "edge-infinite", '{"p":[[67108856,-67108863],[134217727,0]],"s":[[1,0,1,1],[0,0,0,1]]}', "unit segments and points at 26 bits: a curved edge has no end vertex"),
 ("P05", "small", "edge-infinite", '{"p":[[9175852,0],[9175852,1]],"s":[[0,0,0,1],[2,1,2,2]]}', "unit segments and two points at 23 bits: a curved edge has no end vertex"),
]
# property, suite, commit, what failed, case
FIXED = [
 ("P01", "small", "7b1b882", "a vertex was created where the circle through two points and a segment is not passed by the sweep line in that order", '{"p":[[7,1],[6,2]],"s":[[0,0,8,1]]}'),
 ("P01", "small", "36f3c3b", "the range check of a circle through two points and a segment used an absolute tolerance and dropped valid vertices", '{"p":[[2,2],[0,0],[7,-3]],"s":[[0,1,4,-2]]}'),
 ("P10", "huge", "6fd10ba", "the cross product of coordinate differences overflowed 64 bits", '{"p":[[0,3],[-2147483646,0],[2147483647,-2147483647]],"s":[]}'),
 ("P13", "big", "41ab2f5", "colouring the exterior recursed once per edge and overflowed the stack on large diagrams", '{"kind":4,"n":20000,"bits":20,"seed":3}'),
 ("P24", "small", "af61d99", "several queries panicked for elements that do not exist", '{"p":[[0,0],[4,0],[0,4]],"s":[]}'),
 ("P13", "small", "c50b8c0", "colouring the exterior with a colour that has no storable bits never ended", '{"g":{"p":[[0,0],[4,0],[0,4]],"s":[]},"ops":[[6,0,0]]}'),
 ("P14", "failing", "1d700de", "a reader that keeps failing was asked again forever", '{"bytes":[49,10],"cap":8192,"chunk":100000,"fail_at":1,"want":null,"wide":false}'),
 ("P17", "arcs", "4be393a", "dividing a curved edge dropped points, or never ended, when two positions rounded to the same place", '{"dst":[-156.99233430998927,156.99233430998927,1097.0376166947428,1024.1327559276658],"max":0.0001,"pt":[7308,-8128],"seg":[8405,8385,-5879,520],"t":[0.16968594281120875,0.16968594281120886]}'),
 ("P18", "ops", "2cc6aaa", "Zero::is_zero of a multi-word integer panicked", '{"ops":[[0,0,0,5]]}'),
 ("P18", "ops", "4426300", "conversion of the least 64 bit integer to a multi-word integer overflowed", '{"ops":[[0,0,0,-9223372036854775808]]}'),
 ("P18", "ops", "91652b8", "only one leading zero word was removed from a difference", '{"ops":[[0,0,0,1099511627776],[15,0,0,0],[15,0,0,0],[20,0,0,0],[12,1,0,0],[12,2,0,0]]}'),
 ("P19", "ops", "53ccdf7", "a tiny value plus or minus zero gave zero", '{"leaves":[[1.0,-200],[0.0,0]],"ops":[[0,1,0],[0,0,1],[1,1,0]]}'),
 ("P19", "ops", "7c3a74a", "assigning operators differed from the others", '{"leaves":[[1.0,0],[1.0,-3]],"ops":[[0,0,0],[0,1,0],[1,0,1],[2,0,1],[3,0,1]]}'),
 ("P20", "differences", "a3249b9", "a difference made from a negative float had the wrong sign", '{"leaves":[[-1.0,0.0,0.0]],"ops":[[1,0,0]]}'),
 ("P20", "differences", "471cb63", "a difference times a negative float had the wrong sign", '{"leaves":[[1.0,0.0,0.0],[-2.0,0.0,0.0]],"ops":[[0,0,0],[10,0,1]]}'),
 ("P20", "differences", "c31f2e6", "the product of two differences left out the cross terms", '{"leaves":[[5.0,0.0,0.0],[3.0,0.0,0.0]],"ops":[[2,0,1],[5,0,0]]}'),
 ("P20", "differences", "09a57c5", "a difference divided by a negative value had negative sums", '{"leaves":[[1.0,0.0,0.0],[-2.0,0.0,0.0]],"ops":[[0,0,0],[11,0,1]]}'),
 ("P10", "small", "b0731fd", "a circle through two points on the line of a segment was tried, dividing by zero", '{"p":[],"s":[[0,-16382,0,0],[0,1,-16383,0]]}'),
 ("P10", "small", "b0731fd", "a circle through two points on the line of a segment was tried, dividing by zero", '{"p":[],"s":[[0,1,2,16384],[16383,16383,16383,0]]}'),
 ("P13", "small", "c50b8c0", "colouring the exterior with a colour that has no storable bits never ended", '{"g":{"p":[[0,0],[4,0],[0,4]],"s":[]},"ops":[[10,0,2147483648]]}'),
 ("P07", "delaunay-circle", "098e826", "a point above the top arc, nearly tied with a circle event, was inserted further down", '{"p":[[-1683796,1],[1683796,0],[-1,-1683796],[1,-1683796]],"s":[]}'),
 ("P07", "delaunay-circle", "098e826", "a point above the top arc, nearly tied with a circle event, was inserted further down", '{"p":[[258696293,-25419357],[1,-259942139],[259942139,1],[-247477988,79527116],[41429650,-256619369],[-1,-259942139]],"s":[]}'),
 ("P02", "huge", "098e826", "a point above the top arc, nearly tied with a circle event, was inserted further down", '{"p":[[-1683796,1],[1683796,0],[-1,-1683796],[1,-1683796]],"s":[]}'),
 ("P10", "small", "098e826", "an arc was inserted away from where it was found, and a debug assertion failed on an infinite term", '{"p":[],"s":[[0,0,2,9338],[1,9338,1,4683],[9,4060,2,9338]]}'),
 ("P10", "small", "32b425b", "the temporary bisector of a segment was inserted away from its arc, and the build returned an internal error", '{"p":[[-268435454,-268435455],[-268435455,-268435455]],"s":[[0,0,-4,0],[0,0,-4,-3]]}'),
 ("P02", "small", "098e826", "an arc was inserted away from where it was found, and edges of different cells were linked", '{"p":[],"s":[[0,3,1023,1],[1024,0,1024,1025]]}'),
 ("P02", "small", "098e826", "an arc was inserted away from where it was found, and edges of different cells were linked", '{"p":[[100000000,100000000]],"s":[[0,0,1,0]]}'),
]
#MORE
def main():
    import shutil
    with open(ROOT + "/known_findings.jsonl", "w") as f:
        for p, s, g, c, w in OPEN:
            f.write(json.dumps({"status": "open", "property": p, "suite": s, "sig": g, "what": f"{w}: {c}", "case": L(c)}) + "\n")
        for p, s, commit, w, c in FIXED:
            f.write(f"fixed: property={p} {commit} {w}: {c}\n")
    for i, (p, s, commit, w, c) in enumerate(FIXED):
        os.makedirs(f"{ROOT}/regress/{p}", exist_ok=True)
        json.dump({"suite": s, "case": L(c), "why": w}, open(f"{ROOT}/regress/{p}/fixed-{commit}-{i}.json", "w"))
if __name__ == "__main__": main()
