// needs: vals dpf
// C08: value types are groups and convert to protos and back exactly.
#include "common/fuzzmsg.h"
#include "common/wire.h"
#include "dpf/int_mod_n.h"
#include "dpf/internal/value_type_helpers.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "ops/types.h"
#include "vals/vals.h"

namespace vh {
namespace {

const Vals* Pick(Case& c) { return AllVals()[c.index % AllVals().size()]; }

VH_GROUP(arithmetic, 240000, 4000000) {
  const Vals* o = Pick(c);
  const RT& t = o->t;
  RVal a = RandomVal(t, c.rng), b = RandomVal(t, c.rng), d = RandomVal(t, c.rng);
  if (c.rng.chance(1, 8)) b = a;
  if (c.rng.chance(1, 8)) b = Neg(t, a);
  if (c.rng.chance(1, 16)) b = Zero(t);
  c.Desc("%s %s %s %s", o->name.c_str(), Str(a).c_str(), Str(b).c_str(), Str(d).c_str());
  auto same = [&](const RVal& got, const RVal& want, const char* what) {
    if (got == want) return true;
    c.Fail(what, "%s: a=%s b=%s c=%s: got %s, want %s", o->name.c_str(), Str(a).c_str(), Str(b).c_str(), Str(d).c_str(),
           Str(got).c_str(), Str(want).c_str());
    return false;
  };
  RVal sum = Add(t, a, b), diff = Sub(t, a, b);
  if (!same(o->Add(a, b), sum, "add") || !same(o->Sub(a, b), diff, "subtract") || !same(o->Neg(a), Neg(t, a), "negate") ||
      !same(o->AddAssign(a, b), sum, "add_assign") || !same(o->SubAssign(a, b), diff, "subtract_assign") ||
      !same(o->AddAssignSelf(a), Add(t, a, a), "add_self") || !same(o->SubAssignSelf(a), Zero(t), "subtract_self") ||
      !same(o->Default(), Zero(t), "default") || !same(o->Copies(a), a, "copies") ||
      !same(o->Chain(a, b, d), Add(t, Sub(t, a, d), a), "chain"))
    return;
  // The laws, on the library's own results.
  if (!same(o->Add(b, a), o->Add(a, b), "commutative") || !same(o->Add(o->Add(a, b), d), o->Add(a, o->Add(b, d)), "associative") ||
      !same(o->Add(a, o->Default()), a, "zero") || !same(o->Add(a, o->Neg(a)), o->Default(), "inverse") ||
      !same(o->Neg(o->Neg(a)), a, "double_negation") || !same(o->Add(o->Sub(a, b), b), a, "cancel"))
    return;
  VH_CHECK(c, o->Eq(a, b) == (a == b) && o->Ne(a, b) == (a != b), "equality", "%s: %s, %s", o->name.c_str(), Str(a).c_str(),
           Str(b).c_str());
  RVal close = a;  // differs in one leaf only
  RVal* leaf = &close;
  const RT* lt = &t;
  while (lt->kind == RT::TUP) {
    size_t i = c.rng.below(lt->el.size());
    leaf = &leaf->e[i];
    lt = &lt->el[i];
  }
  leaf->v = RandomVal(*lt, c.rng).v;
  VH_CHECK(c, o->Eq(a, close) == (a == close) && o->Ne(a, close) == (a != close), "equality", "%s: %s, %s", o->name.c_str(),
           Str(a).c_str(), Str(close).c_str());
  if (o->IsMod()) {
    u128 raw = c.rng.chance(1, 3) ? t.mod + u128{c.rng.below(3)} - 1 : c.rng.edgy(t.bits);
    if (t.bits < 128) raw &= (u128{1} << t.bits) - 1;
    RVal want;
    want.v = raw % t.mod;
    if (!same(o->FromRaw(raw), want, "construct") || !same(o->AssignRaw(raw), want, "assign")) return;
    VH_CHECK(c, o->Modulus() == t.mod, "modulus", "%s", Str(o->Modulus()).c_str());
    c.Count("modular");
  }
  c.Count(t.kind == RT::TUP ? "tuples" : t.kind == RT::XOR ? "xor" : "others");
  if (!IsZero(sum) && sum != a && sum != b) c.Count("nontrivial_sums");
}

VH_GROUP(conversion, 120000, 2000000) {
  const Vals* o = Pick(c);
  const RT& t = o->t;
  RVal a = RandomVal(t, c.rng);
  c.Desc("%s %s", o->name.c_str(), Str(a).c_str());
  auto v = o->ToValue(a);
  auto ref = FromProto(t, v);
  VH_CHECK(c, ref && *ref == a, "to_value", "%s: %s became %s", o->name.c_str(), Str(a).c_str(), v.ShortDebugString().c_str());
  auto back = o->FromValue(v);
  VH_CHECK(c, back.ok() && *back == a, "round_trip", "%s: %s: %s", o->name.c_str(), Str(a).c_str(), S(back.status()).c_str());
  // As written by other implementations, in either wire form.
  dpflib::Value foreign = ValProto(t, a), parsed;
  std::function<void(dpflib::Value*)> widen = [&](dpflib::Value* p) {
    auto* i = p->has_integer() ? p->mutable_integer()
              : p->has_int_mod_n() ? p->mutable_int_mod_n()
              : p->has_xor_wrapper() ? p->mutable_xor_wrapper() : nullptr;
    if (i && c.rng.chance(1, 2)) SetInteger(i, *GetInteger(*i), true);
    if (p->has_tuple())
      for (auto& e : *p->mutable_tuple()->mutable_elements()) widen(&e);
  };
  widen(&foreign);
  VH_CHECK(c, parsed.ParseFromString(EncodeValue(foreign, &c.rng)), "parse", "%s", o->name.c_str());
  back = o->FromValue(parsed);
  VH_CHECK(c, back.ok() && *back == a, "foreign_form", "%s: %s: %s", o->name.c_str(), parsed.ShortDebugString().c_str(),
           S(back.status()).c_str());
  dpflib::Value again;
  VH_CHECK(c, again.ParseFromString(v.SerializeAsString()), "parse", "%s", o->name.c_str());
  back = o->FromValue(again);
  VH_CHECK(c, back.ok() && *back == a, "serialized", "%s", o->name.c_str());
  // Lists.
  google::protobuf::RepeatedPtrField<dpflib::Value> list;
  std::vector<RVal> vals;
  int n = ElementsPerBlock(t);
  for (int i = 0; i < n; ++i) {
    vals.push_back(RandomVal(t, c.rng));
    *list.Add() = ValProto(t, vals.back());
  }
  auto l = o->FromValues(list);
  VH_CHECK(c, l.ok() && *l == vals, "list", "%s: %s", o->name.c_str(), S(l.status()).c_str());
  if (c.rng.chance(1, 2)) list.RemoveLast();
  else *list.Add() = ValProto(t, vals[0]);
  l = o->FromValues(list);
  VH_CHECK(c, l.status().code() == absl::StatusCode::kInvalidArgument, "list_length", "%s: %d: %s", o->name.c_str(),
           list.size(), S(l.status()).c_str());
  c.Count("converted");
}

VH_GROUP(malformed, 120000, 2000000) {
  const Vals* o = Pick(c);
  const RT& t = o->t;
  dpflib::Value v;
  std::string what;
  switch (c.rng.below(8)) {
    case 0: {
      RT u = RandomType(c.rng, 3);
      v = ValProto(u, RandomVal(u, c.rng));
      what = u.Name();
      break;
    }
    case 1: RandomMessage(c.rng, &v, 4); what = "random"; break;
    case 2: {  // another supported type
      const Vals* p = AllVals()[c.rng.below(AllVals().size())];
      v = p->ToValue(RandomVal(p->t, c.rng));
      what = p->name;
      break;
    }
    case 3: {  // one leaf out of range
      RVal a = RandomVal(t, c.rng);
      RVal* leaf = &a;
      const RT* lt = &t;
      while (lt->kind == RT::TUP) {
        size_t i = c.rng.below(lt->el.size());
        leaf = &leaf->e[i];
        lt = &lt->el[i];
      }
      if (lt->kind == RT::MOD) leaf->v = c.rng.chance(1, 2) ? lt->mod : c.rng.edgy(128);
      else if (lt->bits < 128) leaf->v |= u128{1} << c.rng.range(lt->bits, 127);
      v = ValProto(t, a);
      what = "range";
      break;
    }
    default:
      v = ValProto(t, RandomVal(t, c.rng));
      what = MutateMessage(c.rng, &v, 2);
  }
  c.Desc("%s %s %s", o->name.c_str(), what.c_str(), v.ShortDebugString().c_str());
  auto want = FromProto(t, v);
  auto got = o->FromValue(v);
  if (want) {
    VH_CHECK(c, got.ok() && *got == *want, "valid_refused", "%s: %s: %s", o->name.c_str(), v.ShortDebugString().c_str(),
             S(got.status()).c_str());
    c.Count("accepted");
  } else {
    VH_CHECK(c, got.status().code() == absl::StatusCode::kInvalidArgument, "invalid_accepted", "%s: %s: %s", o->name.c_str(),
             v.ShortDebugString().c_str(), S(got.status()).c_str());
    c.Count("refused");
  }
}

VH_GROUP(type_descriptions, 80000, 1500000) {
  const Vals* o = Pick(c);
  auto type = o->ToValueType();
  VH_CHECK(c, type.SerializeAsString() == TypeProto(o->t).SerializeAsString(), "description", "%s: %s", o->name.c_str(),
           type.ShortDebugString().c_str());
  // Equality of descriptions, for described types and for close relatives.
  RT a = c.rng.chance(1, 2) ? o->t : RandomType(c.rng, 3), b = a;
  std::string how = "same";
  switch (c.rng.below(4)) {
    case 0: b = RandomType(c.rng, 3); how = "random"; break;
    case 1: {
      RT* x = &b;
      while (x->kind == RT::TUP && !c.rng.chance(1, 6)) x = &x->el[c.rng.below(x->el.size())];
      how = "changed";
      switch (c.rng.below(5)) {
        case 0: x->bits = x->bits == 8 ? 16 : x->bits / 2; break;
        case 1: x->kind = x->kind == RT::INT ? RT::XOR : x->kind == RT::XOR ? RT::INT : x->kind; break;
        case 2: if (x->kind == RT::MOD) x->mod ^= u128{1} << c.rng.below(x->bits); break;
        case 3:
          if (x->kind == RT::TUP) x->el.push_back(x->el[0]);
          else *x = RT::Tup({*x});
          break;
        default:
          if (x->kind == RT::TUP && x->el.size() > 1) std::swap(x->el[0], x->el.back());
          if (x->kind == RT::MOD && x->bits < 128) x->mod |= u128{1} << 100;
      }
      break;
    }
    default: break;
  }
  auto pa = TypeProto(a), pb = TypeProto(b);
  // Either wire form of the moduli.
  std::function<void(dpflib::ValueType*)> widen = [&](dpflib::ValueType* p) {
    if (p->has_int_mod_n() && c.rng.chance(1, 2)) {
      u128 m = *GetInteger(p->int_mod_n().modulus());
      SetInteger(p->mutable_int_mod_n()->mutable_modulus(), m, true);
    }
    if (p->has_tuple())
      for (auto& e : *p->mutable_tuple()->mutable_elements()) widen(&e);
  };
  if (c.rng.chance(1, 2)) widen(&pb);
  c.Desc("%s %s %s", a.Name().c_str(), b.Name().c_str(), how.c_str());
  bool want = a == b;
  for (int i = 0; i < 2; ++i) {
    auto r = dpflib::dpf_internal::ValueTypesAreEqual(i ? pb : pa, i ? pa : pb);
    VH_CHECK(c, r.ok() && *r == want, "type_equality", "%s %s: %s", pa.ShortDebugString().c_str(), pb.ShortDebugString().c_str(),
             r.ok() ? (*r ? "equal" : "different") : S(r.status()).c_str());
  }
  c.Count(want ? "equal" : "different");
  // Broken descriptions: an answer or INVALID_ARGUMENT, never true for an unset type.
  std::string what = MutateMessage(c.rng, &pb, 2);
  auto r = dpflib::dpf_internal::ValueTypesAreEqual(pa, pb);
  VH_CHECK(c, r.ok() || r.status().code() == absl::StatusCode::kInvalidArgument, "type_code", "%s", S(r.status()).c_str());
  if (pb.type_case() == 0) VH_CHECK(c, !r.ok(), "unset_type", "%s", what.c_str());
}

// Values through key objects' conversion, bit patterns of small types exhaustively.
VH_GROUP(exhaustive_small, 64, 512) {
  std::vector<const Vals*> small;
  for (auto* o : AllVals())
    if (o->t.kind != RT::TUP && o->t.bits == 8) small.push_back(o);
  const Vals* o = small[c.index % small.size()];
  int part = static_cast<int>(c.index / small.size());
  c.Desc("%s part %d", o->name.c_str(), part);
  u128 n = o->t.kind == RT::MOD ? o->t.mod : u128{256};
  for (u128 x = part % 8; x < n; x += 8) {
    RVal a;
    a.v = x;
    auto r = o->FromValue(o->ToValue(a));
    VH_CHECK(c, r.ok() && *r == a, "round_trip", "%s", Str(a).c_str());
    VH_CHECK(c, o->Neg(a) == Neg(o->t, a), "negate", "%s", Str(a).c_str());
    for (u128 y = 0; y < n; ++y) {
      RVal b;
      b.v = y;
      VH_CHECK(c, o->Add(a, b) == Add(o->t, a, b), "add", "%s: %s+%s", o->name.c_str(), Str(a).c_str(), Str(b).c_str());
      VH_CHECK(c, o->Sub(a, b) == Sub(o->t, a, b), "subtract", "%s: %s-%s", o->name.c_str(), Str(a).c_str(), Str(b).c_str());
      VH_CHECK(c, o->Eq(a, b) == (x == y), "equality", "%s %s", Str(a).c_str(), Str(b).c_str());
      c.Count("pairs");
    }
  }
}

}  // namespace
}  // namespace vh
