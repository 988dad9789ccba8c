"""C32: conjugate partitions."""
from pydv.lib import REG, Loop

IP = "pads.integer_partitions"

REG.macro("conjugated", "p, r", "forall('i:int', imp(0 <= i and i < len(r), "
          "1 <= r[i] and r[i] <= len(p) and i < p[r[i] - 1] and "
          "(r[i] == len(p) or p[r[i]] <= i)), r[i])")

REG.fn(IP + ".conjugate", props=["C32"], params="p:list[int]",
       returns="list[int]",
       requires=["forall('i:int', imp(0 <= i and i < len(p), p[i] > 0), "
                 "p[i])", "forall('i:int, j:int', imp(0 <= i and i < j and "
                 "j < len(p), p[j] <= p[i]), (p[i], p[j]))"],
       ensures=[("as many parts as the first part",
                 "len(result) == ite(len(p) == 0, 0, p[0])"),
                ("part i is the number of parts larger than i",
                 "conjugated(p, result)")],
       locals={"result": "list[int]"},
       loops={1: Loop(inv=["1 <= j and j <= len(p)",
                           "len(result) < p[j - 1]",
                           "j == len(p) or p[j] <= len(result)",
                           "conjugated(p, result)"],
                      decreases="p[0] - len(result)"),
              2: Loop(inv=["1 <= j and j <= len(p)",
                           "len(result) <= p[0]",
                           "j == len(p) or p[j] <= len(result)"],
                      decreases="j")})
