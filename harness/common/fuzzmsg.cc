#include "common/fuzzmsg.h"

#include <cmath>
#include <limits>

namespace vh {
namespace {
namespace pb = google::protobuf;

uint64_t EdgeU64(Rng& rng) {
  switch (rng.below(6)) {
    case 0: return rng.below(10);
    case 1: return rng.u64();
    case 2: return ~uint64_t{0} - rng.below(3);
    case 3: return uint64_t{1} << rng.below(64);
    case 4: return (uint64_t{1} << rng.below(64)) - 1;
    default: return rng.below(300);
  }
}
int32_t EdgeI32(Rng& rng) {
  switch (rng.below(8)) {
    case 0: return static_cast<int32_t>(rng.below(6)) - 2;
    case 1: return std::numeric_limits<int32_t>::max() - static_cast<int32_t>(rng.below(3));
    case 2: return std::numeric_limits<int32_t>::min() + static_cast<int32_t>(rng.below(3));
    case 3: return static_cast<int32_t>(rng.u64());
    case 4: return static_cast<int32_t>(uint32_t{1} << rng.below(32));
    case 5: return 120 + static_cast<int32_t>(rng.below(20));
    default: return static_cast<int32_t>(rng.below(140));
  }
}
double EdgeDouble(Rng& rng) {
  switch (rng.below(8)) {
    case 0: return 0;
    case 1: return -1e-9;
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return std::numeric_limits<double>::infinity();
    case 4: return -std::numeric_limits<double>::infinity();
    case 5: return 128.0 + (rng.chance(1, 2) ? 0 : 1e-9);
    case 6: return 1e300;
    default: return static_cast<double>(rng.below(140));
  }
}
std::string EdgeString(Rng& rng) {
  switch (rng.below(5)) {
    case 0: return "";
    case 1: return std::string(1, static_cast<char>(rng.below(256)));
    case 2: return std::string(rng.below(40), '\0');
    case 3: return rng.bytes(16);
    default: return rng.bytes(rng.below(64));
  }
}

void SetScalar(Rng& rng, pb::Message* m, const pb::FieldDescriptor* f, int at) {
  const pb::Reflection* r = m->GetReflection();
#define VH_SET(kind, value)                                   \
  if (!f->is_repeated()) r->Set##kind(m, f, value);           \
  else if (at >= 0) r->SetRepeated##kind(m, f, at, value);    \
  else r->Add##kind(m, f, value);                             \
  break
  switch (f->cpp_type()) {
    case pb::FieldDescriptor::CPPTYPE_INT32: VH_SET(Int32, EdgeI32(rng));
    case pb::FieldDescriptor::CPPTYPE_INT64:
      VH_SET(Int64, rng.chance(1, 2) ? static_cast<int64_t>(EdgeI32(rng)) : static_cast<int64_t>(EdgeU64(rng)));
    case pb::FieldDescriptor::CPPTYPE_UINT32: VH_SET(UInt32, static_cast<uint32_t>(EdgeU64(rng)));
    case pb::FieldDescriptor::CPPTYPE_UINT64: VH_SET(UInt64, EdgeU64(rng));
    case pb::FieldDescriptor::CPPTYPE_DOUBLE: VH_SET(Double, EdgeDouble(rng));
    case pb::FieldDescriptor::CPPTYPE_FLOAT: VH_SET(Float, static_cast<float>(rng.below(100)));
    case pb::FieldDescriptor::CPPTYPE_BOOL: VH_SET(Bool, rng.chance(1, 2));
    case pb::FieldDescriptor::CPPTYPE_STRING: VH_SET(String, EdgeString(rng));
    case pb::FieldDescriptor::CPPTYPE_ENUM: VH_SET(EnumValue, rng.chance(1, 4) ? EdgeI32(rng) : static_cast<int>(rng.below(4)));
    default: break;
  }
#undef VH_SET
}

void Collect(pb::Message* m, std::vector<pb::Message*>* out) {
  out->push_back(m);
  const pb::Descriptor* d = m->GetDescriptor();
  const pb::Reflection* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const pb::FieldDescriptor* f = d->field(i);
    if (f->cpp_type() != pb::FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (f->is_repeated()) {
      for (int j = 0; j < r->FieldSize(*m, f); ++j) Collect(r->MutableRepeatedMessage(m, f, j), out);
    } else if (r->HasField(*m, f)) {
      Collect(r->MutableMessage(m, f), out);
    }
  }
}

std::string MutateOnce(Rng& rng, pb::Message* root) {
  std::vector<pb::Message*> all;
  Collect(root, &all);
  // Inner messages are many; give the outer ones their chance.
  pb::Message* m = rng.chance(1, 3) ? all[rng.below(std::min<size_t>(all.size(), 4))] : rng.pick(all);
  const pb::Descriptor* d = m->GetDescriptor();
  const pb::Reflection* r = m->GetReflection();
  if (d->field_count() == 0) return "";
  const pb::FieldDescriptor* f = d->field(static_cast<int>(rng.below(d->field_count())));
  std::string what = d->name() + "." + f->name();
  bool msg = f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE;
  if (f->is_repeated()) {
    int n = r->FieldSize(*m, f);
    switch (rng.below(6)) {
      case 0:
        if (n > 0) { r->RemoveLast(m, f); return what + "-1"; }
        [[fallthrough]];
      case 1:
        if (msg) {
          pb::Message* e = r->AddMessage(m, f);
          if (n > 0 && rng.chance(1, 2)) e->CopyFrom(r->GetRepeatedMessage(*m, f, static_cast<int>(rng.below(n))));
          else if (rng.chance(1, 2)) RandomMessage(rng, e, 3);
        } else {
          SetScalar(rng, m, f, -1);
        }
        return what + "+1";
      case 2:
        r->ClearField(m, f);
        return what + "=[]";
      case 3:
        if (n > 1) {
          int a = static_cast<int>(rng.below(n)), b = static_cast<int>(rng.below(n));
          r->SwapElements(m, f, a, b);
          return what + "~";
        }
        [[fallthrough]];
      default:
        if (n == 0) return "";
        int at = static_cast<int>(rng.below(n));
        if (msg) {
          if (rng.chance(1, 2)) r->MutableRepeatedMessage(m, f, at)->Clear();
          else RandomMessage(rng, r->MutableRepeatedMessage(m, f, at), 3);
        } else {
          SetScalar(rng, m, f, at);
        }
        return what + "[]=";
    }
  }
  if (rng.chance(1, 4)) {
    r->ClearField(m, f);
    return what + "-";
  }
  if (msg) {
    if (rng.chance(1, 2)) r->MutableMessage(m, f)->Clear();
    else RandomMessage(rng, r->MutableMessage(m, f), 3);
  } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_STRING && r->HasField(*m, f) && rng.chance(3, 4)) {
    std::string s = r->GetString(*m, f);
    switch (rng.below(4)) {
      case 0: if (!s.empty()) s.resize(rng.below(s.size())); break;
      case 1: s += rng.bytes(1 + rng.below(20)); break;
      case 2: if (!s.empty()) s[rng.below(s.size())] ^= static_cast<char>(1 << rng.below(8)); break;
      default: s = s + s;
    }
    r->SetString(m, f, s);
  } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_INT32 && rng.chance(1, 2)) {
    int64_t v = r->GetInt32(*m, f);
    r->SetInt32(m, f, static_cast<int32_t>(v + static_cast<int64_t>(rng.below(5)) - 2));
  } else if (f->cpp_type() == pb::FieldDescriptor::CPPTYPE_BOOL) {
    r->SetBool(m, f, !r->GetBool(*m, f));
  } else {
    SetScalar(rng, m, f, -1);
  }
  return what + "=";
}
}  // namespace

void RandomMessage(Rng& rng, pb::Message* m, int depth) {
  m->Clear();
  const pb::Descriptor* d = m->GetDescriptor();
  const pb::Reflection* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const pb::FieldDescriptor* f = d->field(i);
    if (rng.chance(1, 4)) continue;
    bool msg = f->cpp_type() == pb::FieldDescriptor::CPPTYPE_MESSAGE;
    if (msg && depth <= 0) continue;
    int n = f->is_repeated() ? static_cast<int>(rng.below(4)) : 1;
    for (int j = 0; j < n; ++j) {
      if (!msg) SetScalar(rng, m, f, -1);
      else RandomMessage(rng, f->is_repeated() ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth - 1);
    }
  }
}

std::string MutateMessage(Rng& rng, pb::Message* m, int n) {
  std::string what;
  int k = 1 + static_cast<int>(rng.below(n));
  for (int i = 0; i < k; ++i) what += MutateOnce(rng, m) + " ";
  return what;
}

}  // namespace vh
