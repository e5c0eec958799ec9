import sys; sys.path.insert(0,"/verif/tools")
from seedlib import seed
seed("int-pow-truncated","C18",[("Code/Math.py","k = int(round(math.log(n, m)))","k = int(math.log(n, m))")],
'''import Math
for m in range(2, 40):
  for k in range(1, 12):
    b, e = Math.int_pow(m**k)
    assert b**e == m**k
    # smallest base: no smaller base works
    for c in range(2, b):
      p = c
      while p < m**k: p *= c
      assert p != m**k, (m, k, b, e, c)
''',"a perfect power whose floating-point logarithm lies just below the integer (243, 125, 1000)","int_pow no longer finds the smallest base")
