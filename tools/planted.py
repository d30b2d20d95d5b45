BUGS = [
 dict(id='short-signed', property='P12', edits=[('libgst/dict.inl', '''        DO_INDEX_OOP_PUT (uint16_t,
			  IS_INT (value)
			  && TO_INT (value) >= -32768
''', '''        DO_INDEX_OOP_PUT (uint16_t,
			  IS_INT (value)
			  && TO_INT (value) > -32768
''')], needs='the least value of an array of signed shorts', breaks='-32768 cannot be stored in an array of signed shorts',
  st='''Object subclass: Sh [ <shape: #short> ]
| s |
s := Sh new: 2.
s basicAt: 1 put: -32768; basicAt: 2 put: 32767.
(s basicAt: 1) printNl.
(s basicAt: 2) printNl.
''', expected='-32768\n32767\n'),
 dict(id='floor-carry', property='P17', edits=[('libgst/mpz.c', """	difp[abs_minsize] = 1;
      difsize = -(difsize + abs_minsize);
""", """	difp[abs_minsize] = 1;
      difsize = -abs_minsize;
""")], needs='an inexact floored division of opposite signs whose truncated quotient is all ones in every limb', breaks='the carry out of the quotient is lost',
  st="""((((2 raisedTo: 64) - 1 * (2 raisedTo: 70)) + 5) negated // (2 raisedTo: 70)) printNl.
((((2 raisedTo: 64) - 2 * (2 raisedTo: 70)) + 5) negated // (2 raisedTo: 70)) printNl.
""", expected='-18446744073709551616\n-18446744073709551615\n'),
 dict(id='and-carry', property='P02', edits=[('libgst/mpz.c', """	  cy = mpn_add_1 (res_ptr, res_ptr, res_size, (mp_limb_t) 1);
	  if (cy)
	    {
	      res_ptr[res_size] = cy;
	      res_size++;
	    }

	  res->size = -res_size;
	  return;
	}
      else
	{
	  /* We should compute -OP1 & OP2.""", """	  cy = mpn_add_1 (res_ptr, res_ptr, res_size, (mp_limb_t) 1);
	  if (cy && op1_size != op2_size)
	    {
	      res_ptr[res_size] = cy;
	      res_size++;
	    }

	  res->size = -res_size;
	  return;
	}
      else
	{
	  /* We should compute -OP1 & OP2.""")], needs='two negative large integers of one limb whose conjunction is a power of 2^64', breaks='bitAnd: answers 0',
  st="""(((2 raisedTo: 63) negated - 1) bitAnd: (2 raisedTo: 63) negated) printNl.
(((2 raisedTo: 63) negated - 1) bitAnd: (2 raisedTo: 62) negated) printNl.
""", expected='-18446744073709551616\n-13835058055282163712\n'),
 dict(id='shift-sticky', property='P02', edits=[('libgst/mpz.c', "	round_down |= (u->d[i] != 0);", "	round_down = (u->d[i] != 0);")],
  needs='a negative number shifted right by whole limbs, with lost one bits only in a lower limb', breaks='rounds towards zero instead of down',
  st="""(((2 raisedTo: 200) + 1) negated bitShift: -128) printNl.
(((2 raisedTo: 200) + (2 raisedTo: 70)) negated bitShift: -128) printNl.
""", expected='-4722366482869645213697\n-4722366482869645213697\n'),
 dict(id='large-equal-limbs', property='P17', edits=[('libgst/mpz.c', """	  if (abs_usize == abs_vsize && mpn_cmp (up, vp, abs_usize) < 0)
	    wsize = abs_usize + mpn_sub (wp, vp, abs_usize, up, abs_usize);
""", """	  if (abs_usize == abs_vsize && up[abs_usize - 1] < vp[abs_usize - 1])
	    wsize = abs_usize + mpn_sub (wp, vp, abs_usize, up, abs_usize);
""")], needs='a difference of two negative large integers of the same size with equal top limbs, the first the larger', breaks='the difference has the wrong sign and magnitude',
  st="""(((2 raisedTo: 100) + 3) negated - ((2 raisedTo: 100) + 9) negated) printNl.
(((2 raisedTo: 100) + 9) negated - ((2 raisedTo: 100) + 3) negated) printNl.
""", expected='6\n-6\n'),
 dict(id='new-tail', property='P19', edits=[('libgst/dict.inl', """      memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,
	      indexedBytes);
""", """      memset (&p_instance->data[instanceSpec >> ISP_NUMFIXEDFIELDS], 0,
	      indexedBytes & ~(sizeof (OOP) - 1));
""")], needs='a byte-indexed object whose size is not a multiple of the word size, in memory that was used before', breaks='the last bytes of a new object are not zero',
  st="""| bad |
bad := 0.
1 to: 2000000 do: [:i | | b |
    b := ByteArray new: 13.
    (b at: 13) = 0 ifFalse: [bad := bad + 1].
    b at: 13 put: 255; at: 9 put: 7].
bad printNl.
""", expected='0\n'),
]
