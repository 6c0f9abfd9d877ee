// C30: everything allocated is released exactly once.
#include "rel.h"
// Rows are (INT32, STRING, INT32).
static const Bytes OPS[] = {
    {0x71, 0x31, 0, 0xB4, 1, 0x11, 5, 0x95, 1, 0},            // 0 ABS_C($0) < 5: an error for the smallest integer
    {0x72, 0x31, 0, 0x37, 1, 0x37, 1, 0xF1, 0x21, 0x31, 2, 0xB4, 1, 0},  // 1 $0, $1 || $1, ABS_C($2)
    {0x73, 0x61, 1, 0, 2, 0x37, 1, 0x21, 2, 0},               // 2 by $0: MAX $1, SUM $2
    {0x74, 3, 0x41, 0, 0x37, 1, 0x21, 2, 0},                  // 3 MIN $0, MAX $1, SUM $2
    {0x73, 0x61, 2, 0, 1, 1, 0x31, 2, 0},                     // 4 by $0, $1: MAX $2
    {0x71, 0x33, 0, 0},                                       // 5 $0, which is no BOOL: an error
    {0x74, 1, 0x24, 0, 0},                                    // 6 SUM of $0 as FLOAT, which it is not: an error
    {0x73, 0x61, 1, 2, 2, 0x10, 0x37, 0, 0},                  // 7 by $2: MAX of $0 as STRING, which it is not: an error
};
static const Bytes BAD[] = {{0xEE}, {0x71, 0x13, 0, 0x72, 0x31, 0, 0xEE}, {0x73, 0x61, 1, 0, 3, 0x10, 0x21, 1, 0x99}, {0x74, 9}, {0x73, 0x61, 9, 0}, {0x74, 1, 0x10, 0, 0x71}, {0x73, 0x62}, {0x74, 2, 0x10}, {}};
static Tuple *newRow() {
  Tuple *t = new Tuple;
  t->push_back(symOrNull(I, 0, "a"));
  t->push_back(String(symString(1, "s")));
  t->push_back(symOperand(I, 0, "b"));
  return t;
}
static void release(const Tuple *t) {
  if (!t) return;
  sx_reach("returned");
  for (const Operand &v : *t) sx_observe("null", v == nullptr);
  delete t;
}
static void put(const RelRunner &r) {
  Tuple *t = newRow();
  const Tuple *out = nullptr;
  try {
    out = r.Put(t);
  } catch (const std::exception &) {
    sx_reach("error");
  }
  release(out);
}
static bool load(RelRunner &r, const Bytes &c) {
  Byte *b = new Byte[c.size()];
  if (c.size()) memcpy(b, c.data(), c.size());
  bool ok = true;
  try { r.Decode(b, c.size()); } catch (const std::exception &) { ok = false; sx_reach("rejected"); }
  delete[] b;
  return ok;
}
// Everything a test touched once before counting starts: the code under test may keep one-time allocations.
static void warm() {
  RelRunner r;
  load(r, OPS[0]);
  load(r, Bytes{0x71, 0xEE});
  load(r, OPS[2]);
  delete r.Put(new Tuple{1, String("x"), 2});
  delete r.Get();
}
// params: operators in the chain (1 or 2), rows; then some of what is kept is taken out, and the runner destroyed
ENTRY(C30_chain) {
  warm();
  uint64_t before = sx_live();
  {
    Bytes c;
    for (uint32_t i = 0; i < sx_param(0); ++i) c << OPS[sx_choice(i + 1 < sx_param(0) ? 5 : 8, "op")];
    RelRunner *r = new RelRunner;
    load(*r, c);
    uint32_t n = sx_choice(sx_param(1) + 1, "rows"), g = sx_choice(3, "gets");
    for (uint32_t i = 0; i < n; ++i) put(*r);
    for (uint32_t i = 0; i < g; ++i) {
      try { release(r->Get()); } catch (const std::exception &) { sx_reach("error"); }
    }
    delete r;
  }
  sx_observe("left", sx_live() - before);
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("chain");
}
// Histories of decoding (also failing), putting, taking out.  params: events
ENTRY(C30_history) {
  warm();
  uint64_t before = sx_live();
  {
    RelRunner r;
    bool ready = false;
    for (uint32_t i = 0; i < sx_param(0); ++i) {
      switch (sx_choice(ready ? 4 : 2, "event")) {
      case 0: ready = load(r, OPS[sx_choice(5, "op")]); break;
      case 1: load(r, BAD[sx_choice(9, "bad")]); ready = false; break;  // the last is no code at all
      case 2: put(r); break;
      case 3: try { release(r.Get()); } catch (const std::exception &) { sx_reach("error"); } break;
      }
    }
  }
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("history");
}
// Decoding anything.  params: bytes, which beginning
ENTRY(C30_decode) {
  static const Bytes PRE[] = {{}, {0x71}, {0x72, 0x17, 1, 'x'}, {0x73, 0x61}, {0x73, 0x61, 1, 0}, {0x73, 0x61, 1, 0, 2, 0x37, 1}, {0x74}, {0x74, 2}, {0x74, 3, 0x10, 0x21, 0}, {0x71, 0x13, 0}, {0x74, 1, 0x10, 0}};
  warm();
  uint64_t before = sx_live();
  {
    Bytes c = PRE[sx_param(1)];
    size_t n = sx_param(0), k = c.size();
    c.resize(k + n);
    if (n) sx_bytes(&c[k], n, "code");
    RelRunner r;
    load(r, c);
  }
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("decode");
}
// The expression runner: decoding, evaluating, failing.  params: bytes, which beginning
ENTRY(C30_expr) {
  static const Bytes PRE[] = {{}, {0x11}, {0x17, 1, 'x'}, {0x31, 0}, {0x37, 1, 0x37, 1, 0xF1}, {0x31, 0, 0xB4}, {0x31, 0, 0x31, 2}, {0x11, 1, 0x83}};
  warm();
  uint64_t before = sx_live();
  {
    Bytes c = PRE[sx_param(1)];
    size_t n = sx_param(0), k = c.size();
    c.resize(k + n);
    if (n) sx_bytes(&c[k], n, "code");
    Runner r;
    Byte *b = new Byte[c.size()];
    memcpy(b, c.data(), c.size());
    try { r.Decode(b, c.size()); } catch (const std::exception &) { sx_reach("rejected"); }
    try { r.Decode(b, c.size()); sx_reach("decoded"); } catch (const std::exception &) {}
    delete[] b;
  }
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("expr");
}
// Evaluating, repeatedly, with errors.
ENTRY(C30_eval) {
  static const Bytes P[] = {{0x31, 0, 0xB4, 1}, {0x37, 1, 0x37, 1, 0xF1, 0x21}, {0x37, 1, 0x31, 0, 0x31, 2, 0xF1, 0x2C}, {0x31, 0, 0x83, 1}, {0x37, 1, 0xF0, 0x17}, {0x31, 0, 0xF0, 0x71, 0x37, 1}, {0x17, 3, 'a', 'b', 'c'}};
  warm();
  uint64_t before = sx_live();
  {
    Runner r;
    const Bytes &p = P[sx_choice(7, "program")];
    Byte *b = new Byte[p.size()];
    memcpy(b, p.data(), p.size());
    Tuple *t = newRow();
    sx_assume((*t)[0] != nullptr);
    // numbers of few digits
    int32_t v = (*t)[0].GetValue<int32_t>();
    sx_assume((v >= -9) & (v <= 9));
    if (sx_choice(2, "smallest")) (*t)[0] = Operand(INT32_MIN);
    for (int k = 0; k < 2; ++k) {
      try {
        r.Decode(b, p.size());
        r.BindTuple(t);
        r.Run();
        Operand x = r.Get();
        delete r.GetAll();
        r.Run();
      } catch (const std::exception &) {
        sx_reach("error");
      }
    }
    delete t;
    delete[] b;
  }
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("eval");
}
// A row that was handed out belongs to the caller: it can be put in again, changed, or released at once.
ENTRY(C30_again) {
  warm();
  uint64_t before = sx_live();
  {
    RelRunner r, q;
    load(r, OPS[sx_choice(2, "op")]);
    load(q, OPS[sx_choice(5, "other")]);
    const Tuple *t = nullptr;
    try { t = r.Put(newRow()); } catch (const std::exception &) {}
    if (t) {
      sx_reach("passed on");
      Tuple *w = const_cast<Tuple *>(t);
      if (sx_choice(2, "change")) { (*w)[0] = Operand(nullptr); (*w)[1] = String("changed"); }
      const Tuple *u = nullptr;
      try { u = q.Put(t); } catch (const std::exception &) {}
      put(r);
      delete u;
      release(q.Get());
    }
  }
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("again");
}
// Much of everything: long codes with errors, many constants, values, groups, aggregates, operators.  params: how much, what
ENTRY(C30_much) {
  warm();
  uint32_t n = sx_param(0), what = sx_param(1), v = sx_choice(3, "variant");
  Operand some = symOperand(I, 0, "v");
  uint64_t before = sx_live();
  {
    Bytes c;
    RelRunner r;
    Runner e;
    if (what == 0) {  // an undefined operator, with much before or after it
      if (v > 0) for (uint32_t i = 0; i < n; ++i) c << 0x17 << 2 << 'x' << (int)(i & 0x7f);
      c << (v == 2 ? 0x17 : 0xEE);
      if (v == 2) c << 0xFF << 0xFF << 0x7F;
      for (uint32_t i = 0; i < n; ++i) c << 0x13;
      Byte *b = new Byte[c.size()];
      memcpy(b, c.data(), c.size());
      bool threw = false;
      try { e.Decode(b, c.size()); } catch (const std::exception &) { threw = true; }
      sx_check(threw, "an error");
      delete[] b;
      Bytes d;
      d << 0x72 << c;
      sx_check(!load(r, d), "an error");
      d.clear();
      d << 0x74;
      varint(d, n);
      for (uint32_t i = 0; i + 1 < n; ++i) d << 0x10;
      d << (v ? 0x99 : 0x21);
      sx_check(!load(r, d), "an error");
      d[0] = v ? 0x99 : 0x73;
      sx_check(!load(r, d), "an error");
    } else if (what == 1) {  // many strings, kept as constants, as values, as results
      c << 0x72;
      for (uint32_t i = 0; i < n; ++i) c << 0x17 << 20 << Bytes(20, (Byte)('a' + i % 26));
      if (v == 1) c << 0x83 << 1;  // an error after them
      c << 0;
      load(r, c);
      for (int k = 0; k < 3; ++k) {
        const Tuple *o = nullptr;
        try { o = r.Put(new Tuple{some, String("s"), 5}); } catch (const std::exception &) { sx_check(v == 1, "no error"); }
        if (o) sx_check(o->size() == n, "all of them");
        delete o;
      }
      if (v == 2) load(r, OPS[1]);
    } else if (what == 2) {  // many groups, none, some or all of which are taken out
      c << (v == 2 ? Bytes{0x73, 0x61, 2, 0, 1, 2, 0x37, 1, 0x21, 2, 0} : OPS[2]);
      load(r, c);
      for (uint32_t i = 0; i < n; ++i) delete r.Put(new Tuple{Operand((int32_t)(i % (n / 2 + 1))), String(std::string(20, (char)('a' + i % 3))), some});
      uint32_t take = sx_choice(3, "taken");
      for (uint32_t i = 0; i < (take == 0 ? 0 : take == 1 ? n / 3 : 4 * n); ++i) delete r.Get();
    } else if (what == 3) {  // many aggregates, one of which fails at times
      c << (v ? 0x73 : 0x74);
      if (v) c << 0x61 << 1 << 0;
      varint(c, n + 1);
      for (uint32_t i = 0; i < n; ++i) c << 0x37 << 1;
      c << 0x21 << 2 << 0;
      load(r, c);
      for (int i = 0; i < 6; ++i) {
        try { delete r.Put(new Tuple{i / 2, String(std::string(20, (char)('f' - i))), i == 3 ? Operand(true) : some}); } catch (const std::exception &) { sx_check(i == 3, "no error"); }
      }
      if (v == 2) delete r.Get();
    } else {  // many operators in a row
      for (uint32_t i = 0; i < n; ++i) c << OPS[i % 7 == 6 ? 4 : i % 7 == 3 ? 2 : 1];
      if (v == 1) c << 0xEE;
      sx_check(load(r, c) == (v != 1), "an error exactly when there is one");
      if (v != 1)
        for (int i = 0; i < 3; ++i) {
          const Tuple *o = nullptr;
          try { o = r.Put(new Tuple{i, String("s"), 2}); } catch (const std::exception &) {}
          delete o;
        }
      if (v == 2) { try { delete r.Get(); } catch (const std::exception &) {} }
    }
  }
  sx_observe("left", sx_live() - before);
  sx_check(sx_live() == before, "nothing remains allocated");
  sx_reach("much");
}
