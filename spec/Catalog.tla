---- MODULE Catalog ----
\* Generated by tools/gen_catalog.py: the catalogue of query terms, in the order of harness/src/catalog.rs. Do not edit.
\* k = c: one component t (m: mutable); k = g: a group <<kind, a, b>>; k = t: a tuple of queries;
\* k = w: the query q filtered by the exclusion of x.
EXTENDS Integers, Sequences
Q == <<
    [k |-> "c", t |-> "A", m |-> 0], \* 1: &A
    [k |-> "c", t |-> "A", m |-> 1], \* 2: &mut A
    [k |-> "c", t |-> "B", m |-> 0], \* 3: &B
    [k |-> "c", t |-> "B", m |-> 1], \* 4: &mut B
    [k |-> "c", t |-> "C", m |-> 0], \* 5: &C
    [k |-> "c", t |-> "C", m |-> 1], \* 6: &mut C
    [k |-> "c", t |-> "D", m |-> 0], \* 7: &D
    [k |-> "c", t |-> "D", m |-> 1], \* 8: &mut D
    [k |-> "c", t |-> "E", m |-> 0], \* 9: &E
    [k |-> "c", t |-> "E", m |-> 1], \* 10: &mut E
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], \* 11: (&A,&B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 1]>>], \* 12: (&A,&mut B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 0]>>], \* 13: (&mut A,&B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1]>>], \* 14: (&mut A,&mut B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 15: (&B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 16: (&B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 0]>>], \* 17: (&mut B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 18: (&mut B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], \* 19: (&A,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 1]>>], \* 20: (&A,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "C", m |-> 0]>>], \* 21: (&mut A,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "C", m |-> 1]>>], \* 22: (&mut A,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 23: (&C,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 24: (&C,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "A", m |-> 0]>>], \* 25: (&mut C,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 26: (&mut C,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], \* 27: (&B,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 1]>>], \* 28: (&B,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 0]>>], \* 29: (&mut B,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 1]>>], \* 30: (&mut B,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], \* 31: (&C,&B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 1]>>], \* 32: (&C,&mut B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 0]>>], \* 33: (&mut C,&B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 1]>>], \* 34: (&mut C,&mut B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 35: (&D,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 36: (&D,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "A", m |-> 0]>>], \* 37: (&mut D,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 38: (&mut D,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], \* 39: (&B,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], \* 40: (&B,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "D", m |-> 0]>>], \* 41: (&mut B,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "D", m |-> 1]>>], \* 42: (&mut B,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 43: (&E,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 44: (&E,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "A", m |-> 0]>>], \* 45: (&mut E,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 46: (&mut E,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 47: (&A,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "E", m |-> 1]>>], \* 48: (&A,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "E", m |-> 0]>>], \* 49: (&mut A,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "E", m |-> 1]>>], \* 50: (&mut A,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], \* 51: (&C,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], \* 52: (&C,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "D", m |-> 0]>>], \* 53: (&mut C,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "D", m |-> 1]>>], \* 54: (&mut C,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 55: (&D,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "E", m |-> 1]>>], \* 56: (&D,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "E", m |-> 0]>>], \* 57: (&mut D,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "E", m |-> 1]>>], \* 58: (&mut D,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], \* 59: (&A,&B,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 1]>>], \* 60: (&mut A,&B,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 0]>>], \* 61: (&A,&mut B,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 1]>>], \* 62: (&mut A,&mut B,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 63: (&C,&B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 64: (&mut C,&B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 0]>>], \* 65: (&C,&mut B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 66: (&mut C,&mut B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], \* 67: (&B,&A,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], \* 68: (&mut B,&A,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "D", m |-> 0]>>], \* 69: (&B,&mut A,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "D", m |-> 1]>>], \* 70: (&mut B,&mut A,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 71: (&D,&C,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "E", m |-> 1]>>], \* 72: (&mut D,&C,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "E", m |-> 0]>>], \* 73: (&D,&mut C,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "E", m |-> 1]>>], \* 74: (&mut D,&mut C,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], \* 75: (&A,&B,&C,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "D", m |-> 1]>>], \* 76: (&mut A,&mut B,&mut C,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], \* 77: (&A,&mut B,&C,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 78: (&D,&C,&B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 79: (&mut D,&mut C,&mut B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 80: (&D,&mut C,&B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], \* 81: (&B,&E,&A,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "C", m |-> 1]>>], \* 82: (&mut B,&mut E,&mut A,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 1]>>], \* 83: (&B,&mut E,&A,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 84: (&A,&B,&C,&D,&E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "E", m |-> 1]>>], \* 85: (&mut A,&mut B,&mut C,&mut D,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "E", m |-> 1]>>], \* 86: (&mut A,&B,&mut C,&D,&mut E)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 87: (&E,&D,&C,&B,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "D", m |-> 1], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "A", m |-> 1]>>], \* 88: (&mut E,&mut D,&mut C,&mut B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 1]>>], \* 89: (&mut E,&D,&mut C,&B,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], \* 90: (&C,&A,&E,&B,&D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "D", m |-> 1]>>], \* 91: (&mut C,&mut A,&mut E,&mut B,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "E", m |-> 1], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], \* 92: (&mut C,&A,&mut E,&B,&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], \* 93: (&A,&A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], \* 94: (&B,&A,&B)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]>>], \* 95: (&A,(&B,&C))
    [k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], [k |-> "c", t |-> "C", m |-> 0]>>], \* 96: ((&A,&B),&C)
    [k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 0]>>], [k |-> "c", t |-> "C", m |-> 1]>>], \* 97: ((&mut A,&B),&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 1], [k |-> "c", t |-> "C", m |-> 1]>>]>>], \* 98: (&mut A,(&mut B,&mut C))
    [k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 1]>>], [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>]>>], \* 99: ((&A,&mut B),(&C,&mut D))
    [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>]>>]>>]>>], \* 100: (&A,(&B,(&C,(&D,&E))))
    [k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "A", m |-> 0]>>], [k |-> "c", t |-> "D", m |-> 1]>>], \* 101: ((&C,&B,&A),&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 1], [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], [k |-> "c", t |-> "D", m |-> 0]>>], \* 102: (&mut E,(&A,&B,&C),&D)
    [k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "t", s |-> <<[k |-> "c", t |-> "E", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>], [k |-> "c", t |-> "C", m |-> 1]>>], [k |-> "c", t |-> "B", m |-> 1]>>], [k |-> "c", t |-> "A", m |-> 1]>>], \* 103: ((((&E,&mut D),&mut C),&mut B),&mut A)
    [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], \* 104: FullOwning<&A,&B>
    [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,1>>], \* 105: FullOwning<&A,&mut B>
    [k |-> "g", g |-> <<"F","A","B">>, m |-> <<1,0>>], \* 106: FullOwning<&mut A,&B>
    [k |-> "g", g |-> <<"F","A","B">>, m |-> <<1,1>>], \* 107: FullOwning<&mut A,&mut B>
    [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,0>>], \* 108: FullOwning<&B,&A>
    [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,1>>], \* 109: FullOwning<&B,&mut A>
    [k |-> "g", g |-> <<"F","B","A">>, m |-> <<1,0>>], \* 110: FullOwning<&mut B,&A>
    [k |-> "g", g |-> <<"F","B","A">>, m |-> <<1,1>>], \* 111: FullOwning<&mut B,&mut A>
    [k |-> "g", g |-> <<"F","A","C">>, m |-> <<0,0>>], \* 112: FullOwning<&A,&C>
    [k |-> "g", g |-> <<"F","A","C">>, m |-> <<0,1>>], \* 113: FullOwning<&A,&mut C>
    [k |-> "g", g |-> <<"F","A","C">>, m |-> <<1,0>>], \* 114: FullOwning<&mut A,&C>
    [k |-> "g", g |-> <<"F","A","C">>, m |-> <<1,1>>], \* 115: FullOwning<&mut A,&mut C>
    [k |-> "g", g |-> <<"F","C","A">>, m |-> <<0,0>>], \* 116: FullOwning<&C,&A>
    [k |-> "g", g |-> <<"F","C","A">>, m |-> <<0,1>>], \* 117: FullOwning<&C,&mut A>
    [k |-> "g", g |-> <<"F","C","A">>, m |-> <<1,0>>], \* 118: FullOwning<&mut C,&A>
    [k |-> "g", g |-> <<"F","C","A">>, m |-> <<1,1>>], \* 119: FullOwning<&mut C,&mut A>
    [k |-> "g", g |-> <<"F","B","C">>, m |-> <<0,0>>], \* 120: FullOwning<&B,&C>
    [k |-> "g", g |-> <<"F","B","C">>, m |-> <<0,1>>], \* 121: FullOwning<&B,&mut C>
    [k |-> "g", g |-> <<"F","B","C">>, m |-> <<1,0>>], \* 122: FullOwning<&mut B,&C>
    [k |-> "g", g |-> <<"F","B","C">>, m |-> <<1,1>>], \* 123: FullOwning<&mut B,&mut C>
    [k |-> "g", g |-> <<"F","C","B">>, m |-> <<0,0>>], \* 124: FullOwning<&C,&B>
    [k |-> "g", g |-> <<"F","C","B">>, m |-> <<0,1>>], \* 125: FullOwning<&C,&mut B>
    [k |-> "g", g |-> <<"F","C","B">>, m |-> <<1,0>>], \* 126: FullOwning<&mut C,&B>
    [k |-> "g", g |-> <<"F","C","B">>, m |-> <<1,1>>], \* 127: FullOwning<&mut C,&mut B>
    [k |-> "g", g |-> <<"F","C","D">>, m |-> <<0,0>>], \* 128: FullOwning<&C,&D>
    [k |-> "g", g |-> <<"F","C","D">>, m |-> <<0,1>>], \* 129: FullOwning<&C,&mut D>
    [k |-> "g", g |-> <<"F","C","D">>, m |-> <<1,0>>], \* 130: FullOwning<&mut C,&D>
    [k |-> "g", g |-> <<"F","C","D">>, m |-> <<1,1>>], \* 131: FullOwning<&mut C,&mut D>
    [k |-> "g", g |-> <<"F","D","A">>, m |-> <<0,0>>], \* 132: FullOwning<&D,&A>
    [k |-> "g", g |-> <<"F","D","A">>, m |-> <<0,1>>], \* 133: FullOwning<&D,&mut A>
    [k |-> "g", g |-> <<"F","D","A">>, m |-> <<1,0>>], \* 134: FullOwning<&mut D,&A>
    [k |-> "g", g |-> <<"F","D","A">>, m |-> <<1,1>>], \* 135: FullOwning<&mut D,&mut A>
    [k |-> "g", g |-> <<"F","E","B">>, m |-> <<0,0>>], \* 136: FullOwning<&E,&B>
    [k |-> "g", g |-> <<"F","E","B">>, m |-> <<0,1>>], \* 137: FullOwning<&E,&mut B>
    [k |-> "g", g |-> <<"F","E","B">>, m |-> <<1,0>>], \* 138: FullOwning<&mut E,&B>
    [k |-> "g", g |-> <<"F","E","B">>, m |-> <<1,1>>], \* 139: FullOwning<&mut E,&mut B>
    [k |-> "g", g |-> <<"F","B","E">>, m |-> <<0,0>>], \* 140: FullOwning<&B,&E>
    [k |-> "g", g |-> <<"F","B","E">>, m |-> <<0,1>>], \* 141: FullOwning<&B,&mut E>
    [k |-> "g", g |-> <<"F","B","E">>, m |-> <<1,0>>], \* 142: FullOwning<&mut B,&E>
    [k |-> "g", g |-> <<"F","B","E">>, m |-> <<1,1>>], \* 143: FullOwning<&mut B,&mut E>
    [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], \* 144: PartialOwning<&A,&B>
    [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,1>>], \* 145: PartialOwning<&A,&mut B>
    [k |-> "g", g |-> <<"P","A","B">>, m |-> <<1,0>>], \* 146: PartialOwning<&mut A,&B>
    [k |-> "g", g |-> <<"P","A","B">>, m |-> <<1,1>>], \* 147: PartialOwning<&mut A,&mut B>
    [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>], \* 148: PartialOwning<&B,&A>
    [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,1>>], \* 149: PartialOwning<&B,&mut A>
    [k |-> "g", g |-> <<"P","B","A">>, m |-> <<1,0>>], \* 150: PartialOwning<&mut B,&A>
    [k |-> "g", g |-> <<"P","B","A">>, m |-> <<1,1>>], \* 151: PartialOwning<&mut B,&mut A>
    [k |-> "g", g |-> <<"P","A","C">>, m |-> <<0,0>>], \* 152: PartialOwning<&A,&C>
    [k |-> "g", g |-> <<"P","A","C">>, m |-> <<0,1>>], \* 153: PartialOwning<&A,&mut C>
    [k |-> "g", g |-> <<"P","A","C">>, m |-> <<1,0>>], \* 154: PartialOwning<&mut A,&C>
    [k |-> "g", g |-> <<"P","A","C">>, m |-> <<1,1>>], \* 155: PartialOwning<&mut A,&mut C>
    [k |-> "g", g |-> <<"P","C","A">>, m |-> <<0,0>>], \* 156: PartialOwning<&C,&A>
    [k |-> "g", g |-> <<"P","C","A">>, m |-> <<0,1>>], \* 157: PartialOwning<&C,&mut A>
    [k |-> "g", g |-> <<"P","C","A">>, m |-> <<1,0>>], \* 158: PartialOwning<&mut C,&A>
    [k |-> "g", g |-> <<"P","C","A">>, m |-> <<1,1>>], \* 159: PartialOwning<&mut C,&mut A>
    [k |-> "g", g |-> <<"P","B","C">>, m |-> <<0,0>>], \* 160: PartialOwning<&B,&C>
    [k |-> "g", g |-> <<"P","B","C">>, m |-> <<0,1>>], \* 161: PartialOwning<&B,&mut C>
    [k |-> "g", g |-> <<"P","B","C">>, m |-> <<1,0>>], \* 162: PartialOwning<&mut B,&C>
    [k |-> "g", g |-> <<"P","B","C">>, m |-> <<1,1>>], \* 163: PartialOwning<&mut B,&mut C>
    [k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,0>>], \* 164: PartialOwning<&C,&B>
    [k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,1>>], \* 165: PartialOwning<&C,&mut B>
    [k |-> "g", g |-> <<"P","C","B">>, m |-> <<1,0>>], \* 166: PartialOwning<&mut C,&B>
    [k |-> "g", g |-> <<"P","C","B">>, m |-> <<1,1>>], \* 167: PartialOwning<&mut C,&mut B>
    [k |-> "g", g |-> <<"P","C","D">>, m |-> <<0,0>>], \* 168: PartialOwning<&C,&D>
    [k |-> "g", g |-> <<"P","C","D">>, m |-> <<0,1>>], \* 169: PartialOwning<&C,&mut D>
    [k |-> "g", g |-> <<"P","C","D">>, m |-> <<1,0>>], \* 170: PartialOwning<&mut C,&D>
    [k |-> "g", g |-> <<"P","C","D">>, m |-> <<1,1>>], \* 171: PartialOwning<&mut C,&mut D>
    [k |-> "g", g |-> <<"P","D","A">>, m |-> <<0,0>>], \* 172: PartialOwning<&D,&A>
    [k |-> "g", g |-> <<"P","D","A">>, m |-> <<0,1>>], \* 173: PartialOwning<&D,&mut A>
    [k |-> "g", g |-> <<"P","D","A">>, m |-> <<1,0>>], \* 174: PartialOwning<&mut D,&A>
    [k |-> "g", g |-> <<"P","D","A">>, m |-> <<1,1>>], \* 175: PartialOwning<&mut D,&mut A>
    [k |-> "g", g |-> <<"P","E","B">>, m |-> <<0,0>>], \* 176: PartialOwning<&E,&B>
    [k |-> "g", g |-> <<"P","E","B">>, m |-> <<0,1>>], \* 177: PartialOwning<&E,&mut B>
    [k |-> "g", g |-> <<"P","E","B">>, m |-> <<1,0>>], \* 178: PartialOwning<&mut E,&B>
    [k |-> "g", g |-> <<"P","E","B">>, m |-> <<1,1>>], \* 179: PartialOwning<&mut E,&mut B>
    [k |-> "g", g |-> <<"P","B","E">>, m |-> <<0,0>>], \* 180: PartialOwning<&B,&E>
    [k |-> "g", g |-> <<"P","B","E">>, m |-> <<0,1>>], \* 181: PartialOwning<&B,&mut E>
    [k |-> "g", g |-> <<"P","B","E">>, m |-> <<1,0>>], \* 182: PartialOwning<&mut B,&E>
    [k |-> "g", g |-> <<"P","B","E">>, m |-> <<1,1>>], \* 183: PartialOwning<&mut B,&mut E>
    [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], \* 184: NonOwning<&A,&B>
    [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,1>>], \* 185: NonOwning<&A,&mut B>
    [k |-> "g", g |-> <<"N","A","B">>, m |-> <<1,0>>], \* 186: NonOwning<&mut A,&B>
    [k |-> "g", g |-> <<"N","A","B">>, m |-> <<1,1>>], \* 187: NonOwning<&mut A,&mut B>
    [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,0>>], \* 188: NonOwning<&B,&A>
    [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,1>>], \* 189: NonOwning<&B,&mut A>
    [k |-> "g", g |-> <<"N","B","A">>, m |-> <<1,0>>], \* 190: NonOwning<&mut B,&A>
    [k |-> "g", g |-> <<"N","B","A">>, m |-> <<1,1>>], \* 191: NonOwning<&mut B,&mut A>
    [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,0>>], \* 192: NonOwning<&A,&C>
    [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,1>>], \* 193: NonOwning<&A,&mut C>
    [k |-> "g", g |-> <<"N","A","C">>, m |-> <<1,0>>], \* 194: NonOwning<&mut A,&C>
    [k |-> "g", g |-> <<"N","A","C">>, m |-> <<1,1>>], \* 195: NonOwning<&mut A,&mut C>
    [k |-> "g", g |-> <<"N","C","A">>, m |-> <<0,0>>], \* 196: NonOwning<&C,&A>
    [k |-> "g", g |-> <<"N","C","A">>, m |-> <<0,1>>], \* 197: NonOwning<&C,&mut A>
    [k |-> "g", g |-> <<"N","C","A">>, m |-> <<1,0>>], \* 198: NonOwning<&mut C,&A>
    [k |-> "g", g |-> <<"N","C","A">>, m |-> <<1,1>>], \* 199: NonOwning<&mut C,&mut A>
    [k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,0>>], \* 200: NonOwning<&B,&C>
    [k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,1>>], \* 201: NonOwning<&B,&mut C>
    [k |-> "g", g |-> <<"N","B","C">>, m |-> <<1,0>>], \* 202: NonOwning<&mut B,&C>
    [k |-> "g", g |-> <<"N","B","C">>, m |-> <<1,1>>], \* 203: NonOwning<&mut B,&mut C>
    [k |-> "g", g |-> <<"N","C","B">>, m |-> <<0,0>>], \* 204: NonOwning<&C,&B>
    [k |-> "g", g |-> <<"N","C","B">>, m |-> <<0,1>>], \* 205: NonOwning<&C,&mut B>
    [k |-> "g", g |-> <<"N","C","B">>, m |-> <<1,0>>], \* 206: NonOwning<&mut C,&B>
    [k |-> "g", g |-> <<"N","C","B">>, m |-> <<1,1>>], \* 207: NonOwning<&mut C,&mut B>
    [k |-> "g", g |-> <<"N","C","D">>, m |-> <<0,0>>], \* 208: NonOwning<&C,&D>
    [k |-> "g", g |-> <<"N","C","D">>, m |-> <<0,1>>], \* 209: NonOwning<&C,&mut D>
    [k |-> "g", g |-> <<"N","C","D">>, m |-> <<1,0>>], \* 210: NonOwning<&mut C,&D>
    [k |-> "g", g |-> <<"N","C","D">>, m |-> <<1,1>>], \* 211: NonOwning<&mut C,&mut D>
    [k |-> "g", g |-> <<"N","D","A">>, m |-> <<0,0>>], \* 212: NonOwning<&D,&A>
    [k |-> "g", g |-> <<"N","D","A">>, m |-> <<0,1>>], \* 213: NonOwning<&D,&mut A>
    [k |-> "g", g |-> <<"N","D","A">>, m |-> <<1,0>>], \* 214: NonOwning<&mut D,&A>
    [k |-> "g", g |-> <<"N","D","A">>, m |-> <<1,1>>], \* 215: NonOwning<&mut D,&mut A>
    [k |-> "g", g |-> <<"N","E","B">>, m |-> <<0,0>>], \* 216: NonOwning<&E,&B>
    [k |-> "g", g |-> <<"N","E","B">>, m |-> <<0,1>>], \* 217: NonOwning<&E,&mut B>
    [k |-> "g", g |-> <<"N","E","B">>, m |-> <<1,0>>], \* 218: NonOwning<&mut E,&B>
    [k |-> "g", g |-> <<"N","E","B">>, m |-> <<1,1>>], \* 219: NonOwning<&mut E,&mut B>
    [k |-> "g", g |-> <<"N","B","E">>, m |-> <<0,0>>], \* 220: NonOwning<&B,&E>
    [k |-> "g", g |-> <<"N","B","E">>, m |-> <<0,1>>], \* 221: NonOwning<&B,&mut E>
    [k |-> "g", g |-> <<"N","B","E">>, m |-> <<1,0>>], \* 222: NonOwning<&mut B,&E>
    [k |-> "g", g |-> <<"N","B","E">>, m |-> <<1,1>>], \* 223: NonOwning<&mut B,&mut E>
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "C", m |-> 0]>>], \* 224: (FullOwning<&A,&B>,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]>>], \* 225: (&C,FullOwning<&A,&B>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<1,1>>], [k |-> "c", t |-> "C", m |-> 1]>>], \* 226: (FullOwning<&mut A,&mut B>,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,1>>]>>], \* 227: (&D,FullOwning<&B,&mut A>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","C">>, m |-> <<1,0>>], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 228: (FullOwning<&mut A,&C>,&B,&E)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "A", m |-> 0]>>], \* 229: (FullOwning<&A,&B>,&A)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","C","B">>, m |-> <<0,0>>], [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>]>>], \* 230: (FullOwning<&C,&B>,(&A,&mut D))
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "C", m |-> 0]>>], \* 231: (PartialOwning<&A,&B>,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>]>>], \* 232: (&C,PartialOwning<&A,&B>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","A","B">>, m |-> <<1,1>>], [k |-> "c", t |-> "C", m |-> 1]>>], \* 233: (PartialOwning<&mut A,&mut B>,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,1>>]>>], \* 234: (&D,PartialOwning<&B,&mut A>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","A","C">>, m |-> <<1,0>>], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 235: (PartialOwning<&mut A,&C>,&B,&E)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "A", m |-> 0]>>], \* 236: (PartialOwning<&A,&B>,&A)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,0>>], [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>]>>], \* 237: (PartialOwning<&C,&B>,(&A,&mut D))
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "C", m |-> 0]>>], \* 238: (NonOwning<&A,&B>,&C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 0], [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]>>], \* 239: (&C,NonOwning<&A,&B>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","A","B">>, m |-> <<1,1>>], [k |-> "c", t |-> "C", m |-> 1]>>], \* 240: (NonOwning<&mut A,&mut B>,&mut C)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,1>>]>>], \* 241: (&D,NonOwning<&B,&mut A>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","A","C">>, m |-> <<1,0>>], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "E", m |-> 0]>>], \* 242: (NonOwning<&mut A,&C>,&B,&E)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], [k |-> "c", t |-> "A", m |-> 0]>>], \* 243: (NonOwning<&A,&B>,&A)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","C","B">>, m |-> <<0,0>>], [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 1]>>]>>], \* 244: (NonOwning<&C,&B>,(&A,&mut D))
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,0>>]>>], \* 245: (FullOwning<&A,&B>,NonOwning<&A,&C>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"P","C","A">>, m |-> <<0,0>>]>>], \* 246: (NonOwning<&A,&B>,PartialOwning<&C,&A>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>]>>], \* 247: (PartialOwning<&A,&B>,PartialOwning<&B,&A>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]>>], \* 248: (FullOwning<&A,&B>,NonOwning<&A,&B>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"F","C","D">>, m |-> <<0,0>>]>>], \* 249: (FullOwning<&A,&B>,FullOwning<&C,&D>)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"N","C","A">>, m |-> <<0,0>>], [k |-> "c", t |-> "D", m |-> 0]>>], \* 250: (NonOwning<&B,&C>,NonOwning<&C,&A>,&D)
    [k |-> "t", s |-> <<[k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,0>>], [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]>>], \* 251: (PartialOwning<&C,&B>,NonOwning<&A,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], \* 252: (&A,Without<&B>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], \* 253: (Without<&B>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 0]], \* 254: (&mut A,Without<&B>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 0]], \* 255: (Without<&B>,&mut A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 1]], \* 256: (&A,Without<&mut B>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 1]], \* 257: (Without<&mut B>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 258: (&B,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 259: (Without<&A>,&B)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 260: (&C,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 261: (Without<&A>,&C)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 262: (&A,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 263: (Without<&C>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 264: (&A,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 265: (Without<&A>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "D", m |-> 1], x |-> [k |-> "c", t |-> "E", m |-> 0]], \* 266: (&mut D,Without<&E>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "D", m |-> 1], x |-> [k |-> "c", t |-> "E", m |-> 0]], \* 267: (Without<&E>,&mut D)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "E", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 1]], \* 268: (&E,Without<&mut C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "E", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 1]], \* 269: (Without<&mut C>,&E)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 1]], \* 270: (&mut C,Without<&mut B>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 1]], \* 271: (Without<&mut B>,&mut C)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 272: ((&A,&B),Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0]>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 273: (Without<&C>,(&A,&B))
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1]>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 274: ((&mut A,&mut B),Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 1], [k |-> "c", t |-> "B", m |-> 1]>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 275: (Without<&C>,(&mut A,&mut B))
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 276: (&A,Without<(&B,&C)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 277: (Without<(&B,&C)>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 278: (&mut A,Without<(&B,&C)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 279: (Without<(&B,&C)>,&mut A)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 280: ((&A,&C),Without<(&B,&D)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 281: (Without<(&B,&D)>,(&A,&C))
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], x |-> [k |-> "c", t |-> "D", m |-> 0]], \* 282: ((&A,&B,&C),Without<&D>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>], x |-> [k |-> "c", t |-> "D", m |-> 0]], \* 283: (Without<&D>,(&A,&B,&C))
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "D", m |-> 0], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 284: (&D,Without<(&A,&B,&C)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "D", m |-> 0], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 285: (Without<(&A,&B,&C)>,&D)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 286: (FullOwning<&A,&B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 287: (Without<&C>,FullOwning<&A,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 288: (FullOwning<&mut A,&mut B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 289: (Without<&C>,FullOwning<&mut A,&mut B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]], \* 290: (&C,Without<FullOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]], \* 291: (Without<FullOwning<&A,&B>>,&C)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]], \* 292: (&A,Without<FullOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]], \* 293: (Without<FullOwning<&A,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,0>>]], \* 294: (&mut C,Without<FullOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,0>>]], \* 295: (Without<FullOwning<&B,&A>>,&mut C)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"F","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 296: (FullOwning<&B,&mut C>,Without<(&A,&D)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"F","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 297: (Without<(&A,&D)>,FullOwning<&B,&mut C>)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"F","A","C">>, m |-> <<0,0>>]], \* 298: ((&A,&D),Without<FullOwning<&A,&C>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"F","A","C">>, m |-> <<0,0>>]], \* 299: (Without<FullOwning<&A,&C>>,(&A,&D))
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,0>>]], \* 300: (&B,Without<FullOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"F","B","A">>, m |-> <<0,0>>]], \* 301: (Without<FullOwning<&B,&A>>,&B)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"F","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 302: (FullOwning<&mut C,&B>,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"F","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 303: (Without<&A>,FullOwning<&mut C,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"F","C","B">>, m |-> <<0,0>>]], \* 304: (&A,Without<FullOwning<&C,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"F","C","B">>, m |-> <<0,0>>]], \* 305: (Without<FullOwning<&C,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 306: (PartialOwning<&A,&B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 307: (Without<&C>,PartialOwning<&A,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 308: (PartialOwning<&mut A,&mut B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 309: (Without<&C>,PartialOwning<&mut A,&mut B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>]], \* 310: (&C,Without<PartialOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>]], \* 311: (Without<PartialOwning<&A,&B>>,&C)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>]], \* 312: (&A,Without<PartialOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>]], \* 313: (Without<PartialOwning<&A,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>]], \* 314: (&mut C,Without<PartialOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>]], \* 315: (Without<PartialOwning<&B,&A>>,&mut C)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"P","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 316: (PartialOwning<&B,&mut C>,Without<(&A,&D)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"P","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 317: (Without<(&A,&D)>,PartialOwning<&B,&mut C>)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"P","A","C">>, m |-> <<0,0>>]], \* 318: ((&A,&D),Without<PartialOwning<&A,&C>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"P","A","C">>, m |-> <<0,0>>]], \* 319: (Without<PartialOwning<&A,&C>>,(&A,&D))
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>]], \* 320: (&B,Without<PartialOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"P","B","A">>, m |-> <<0,0>>]], \* 321: (Without<PartialOwning<&B,&A>>,&B)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"P","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 322: (PartialOwning<&mut C,&B>,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"P","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 323: (Without<&A>,PartialOwning<&mut C,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,0>>]], \* 324: (&A,Without<PartialOwning<&C,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"P","C","B">>, m |-> <<0,0>>]], \* 325: (Without<PartialOwning<&C,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 326: (NonOwning<&A,&B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 327: (Without<&C>,NonOwning<&A,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 328: (NonOwning<&mut A,&mut B>,Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<1,1>>], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 329: (Without<&C>,NonOwning<&mut A,&mut B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]], \* 330: (&C,Without<NonOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 0], x |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]], \* 331: (Without<NonOwning<&A,&B>>,&C)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]], \* 332: (&A,Without<NonOwning<&A,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>]], \* 333: (Without<NonOwning<&A,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,0>>]], \* 334: (&mut C,Without<NonOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "C", m |-> 1], x |-> [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,0>>]], \* 335: (Without<NonOwning<&B,&A>>,&mut C)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 336: (NonOwning<&B,&mut C>,Without<(&A,&D)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,1>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>]], \* 337: (Without<(&A,&D)>,NonOwning<&B,&mut C>)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,0>>]], \* 338: ((&A,&D),Without<NonOwning<&A,&C>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "c", t |-> "D", m |-> 0]>>], x |-> [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,0>>]], \* 339: (Without<NonOwning<&A,&C>>,(&A,&D))
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,0>>]], \* 340: (&B,Without<NonOwning<&B,&A>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "g", g |-> <<"N","B","A">>, m |-> <<0,0>>]], \* 341: (Without<NonOwning<&B,&A>>,&B)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"N","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 342: (NonOwning<&mut C,&B>,Without<&A>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"N","C","B">>, m |-> <<1,0>>], x |-> [k |-> "c", t |-> "A", m |-> 0]], \* 343: (Without<&A>,NonOwning<&mut C,&B>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"N","C","B">>, m |-> <<0,0>>]], \* 344: (&A,Without<NonOwning<&C,&B>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "g", g |-> <<"N","C","B">>, m |-> <<0,0>>]], \* 345: (Without<NonOwning<&C,&B>>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 346: ((&A,Without<&B>),Without<&C>)
    [k |-> "w", side |-> "L", q |-> [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 347: (Without<&C>,(Without<&B>,&A))
    [k |-> "w", side |-> "L", q |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 348: (Without<&C>,(&A,Without<&B>))
    [k |-> "w", side |-> "R", q |-> [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 0]], x |-> [k |-> "c", t |-> "C", m |-> 0]], \* 349: ((Without<&B>,&mut A),Without<&C>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]], \* 350: (&A,Without<(&B,Without<&C>)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]], \* 351: (Without<(&B,Without<&C>)>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]], \* 352: (&mut A,Without<(Without<&C>,&B)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]], \* 353: (Without<(Without<&C>,&B)>,&mut A)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "D", m |-> 0], [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]]>>], \* 354: (&D,(&A,Without<&B>))
    [k |-> "t", s |-> <<[k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], [k |-> "c", t |-> "D", m |-> 0]>>], \* 355: ((&A,Without<&B>),&D)
    [k |-> "t", s |-> <<[k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 1], x |-> [k |-> "c", t |-> "B", m |-> 0]], [k |-> "c", t |-> "D", m |-> 1]>>], \* 356: ((Without<&B>,&mut A),&mut D)
    [k |-> "t", s |-> <<[k |-> "c", t |-> "C", m |-> 1], [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], [k |-> "c", t |-> "D", m |-> 0]>>], \* 357: (&mut C,(Without<&B>,&A),&D)
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "B", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]>>], x |-> [k |-> "c", t |-> "D", m |-> 0]], \* 358: ((&A,(&B,Without<&C>)),Without<&D>)
    [k |-> "t", s |-> <<[k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]], [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "D", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]>>], \* 359: ((&A,Without<&B>),(Without<&C>,&D))
    [k |-> "w", side |-> "R", q |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "A", m |-> 0], [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "D", m |-> 0], x |-> [k |-> "c", t |-> "E", m |-> 0]]>>], x |-> [k |-> "t", s |-> <<[k |-> "c", t |-> "B", m |-> 0], [k |-> "c", t |-> "C", m |-> 0]>>]], \* 360: ((&A,(Without<&E>,&D)),Without<(&B,&C)>)
    [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]]], \* 361: (&A,Without<(&A,Without<&B>)>)
    [k |-> "w", side |-> "L", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "B", m |-> 0]]]], \* 362: (Without<(&A,Without<(&A,Without<&B>)>)>,&A)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"N","A","B">>, m |-> <<0,0>>], x |-> [k |-> "g", g |-> <<"N","B","C">>, m |-> <<0,0>>]], \* 363: (NonOwning<&A,&B>,Without<NonOwning<&B,&C>>)
    [k |-> "w", side |-> "L", q |-> [k |-> "g", g |-> <<"N","A","C">>, m |-> <<0,0>>], x |-> [k |-> "g", g |-> <<"F","A","B">>, m |-> <<0,0>>]], \* 364: (Without<FullOwning<&A,&B>>,NonOwning<&A,&C>)
    [k |-> "w", side |-> "R", q |-> [k |-> "g", g |-> <<"P","A","B">>, m |-> <<0,0>>], x |-> [k |-> "w", side |-> "R", q |-> [k |-> "c", t |-> "A", m |-> 0], x |-> [k |-> "c", t |-> "C", m |-> 0]]] \* 365: (PartialOwning<&A,&B>,Without<(&A,Without<&C>)>)
>>
====
