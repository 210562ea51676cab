// needs: pir
// C19: the leader/helper protocol combines, masks and isolates correctly.
#include <map>
#include <set>
#include <thread>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

PirKind KindOf(Case& c) { return static_cast<PirKind>(c.index % 3); }

bool Contains(const std::string& s, const std::string& x) { return s.find(x) != std::string::npos; }

std::string XorStr(std::string a, const std::string& b) {
  for (size_t i = 0; i < a.size(); ++i) a[i] ^= b[i];
  return a;
}

// What XOR with one continuous pad gives.
PirResponse Mask(const PirResponse& p, const std::string& seed) {
  size_t total = 0, at = 0;
  for (auto& x : p.dpf_pir_response().masked_response()) total += x.size();
  std::string pad = PadStream(seed, total);
  PirResponse out = p;
  for (int i = 0; i < p.dpf_pir_response().masked_response_size(); ++i) {
    for (auto& ch : *out.mutable_dpf_pir_response()->mutable_masked_response(i)) ch ^= pad[at++];
  }
  return out;
}

// What a client sends.
VH_GROUP(client_requests, 4500, 40000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 40);
  bool custom = r.chance(1, 3);
  std::string context = custom ? r.bytes(r.below(40)) : w.Context();
  c.Desc("%s n=%zu context=%s v=%016llx", KindName(w.kind), w.records.size(), Hex(context).c_str(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  absl::StatusOr<Client> cl;
  {
    std::string temporary = context;
    cl = custom ? MakeClient(w, &h, temporary) : MakeClient(w, &h);
    std::fill(temporary.begin(), temporary.end(), '!');
  }
  VH_CHECK(c, cl.ok(), "client_refused", "%s", S(cl.status()).c_str());
  VH_CHECK(c, h.encrypts.empty(), "encrypts_early", "%zu", h.encrypts.size());
  std::set<std::string> seeds;
  Query q = AnyQuery(r, w, 5);
  for (size_t k = 0; k < 3; ++k) {
    if (r.chance(1, 2)) q = AnyQuery(r, w, 5);
    auto req = cl->CreateRequest(q);
    VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
    VH_CHECK(c, h.encrypts.size() == k + 1, "encrypter_calls", "%zu", h.encrypts.size());
    const Hybrid::Call& e = h.encrypts.back();
    VH_CHECK(c, e.context == context, "encryption_context", "%s", Hex(e.context).c_str());
    DpfPirRequest::HelperRequest hr;
    VH_CHECK(c, hr.ParseFromString(e.plain), "helper_part", "%s", Hex(e.plain).c_str());
    const PirRequest& sent = req->first;
    VH_CHECK(c, sent.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kLeaderRequest, "request_kind", "%s", sent.ShortDebugString().c_str());
    const auto& lr = sent.dpf_pir_request().leader_request();
    VH_CHECK(c, lr.encrypted_helper_request().encrypted_request() == e.cipher, "ciphertext", "%s", Hex(lr.encrypted_helper_request().encrypted_request()).c_str());
    int nk = static_cast<int>(q.size(w.kind)) * (w.kind == CUCKOO ? 3 : 1);
    VH_CHECK(c, lr.plain_request().dpf_key_size() == nk && hr.plain_request().dpf_key_size() == nk, "number_of_keys", "%d, %d of %d",
             lr.plain_request().dpf_key_size(), hr.plain_request().dpf_key_size(), nk);
    const std::string& seed = hr.one_time_pad_seed();
    VH_CHECK(c, seed.size() == 16 && seeds.insert(seed).second && seed == StateSeed(req->second), "pad_seed", "%s", Hex(seed).c_str());
    // In the clear: nothing of the helper's.
    std::string clear = sent.SerializeAsString();
    size_t at = clear.find(e.cipher);
    if (at != std::string::npos) clear.replace(at, e.cipher.size(), "");
    VH_CHECK(c, !Contains(clear, seed), "pad_seed_in_clear", "%s", Hex(seed).c_str());
    for (int i = 0; i < nk; ++i) {
      auto& a = lr.plain_request().dpf_key(i);
      auto& b = hr.plain_request().dpf_key(i);
      VH_CHECK(c, !Contains(clear, b.seed().SerializeAsString()), "helper_key_in_clear", "key %d of %d", i, nk);
      VH_CHECK(c, !Contains(e.plain, a.seed().SerializeAsString()), "leader_key_for_helper", "key %d of %d", i, nk);
      VH_CHECK(c, a.party() + b.party() == 1 && a.party() != b.party(), "parties", "key %d: %d, %d", i, a.party(), b.party());
    }
    if (w.kind != DENSE)
      for (auto& x : q.keys)
        VH_CHECK(c, x.size() < 6 || (!Contains(clear, x) && !Contains(e.plain, x)), "query_in_clear", "%s", Hex(x).c_str());
    c.Count("requests");
  }
  // Failing encryption.
  if (w.kind == DENSE) {
    auto bad = DenseDpfPirClient::Create(w.config, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return absl::UnavailableError("no key"); });
    VH_CHECK(c, bad.ok() && (*bad)->CreateRequest(q.indices).status().code() == absl::StatusCode::kUnavailable, "encryption_error_lost", "dense");
  } else if (w.kind == CUCKOO) {
    auto bad = CuckooHashingSparseDpfPirClient::Create(w.params, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return absl::UnavailableError("no key"); });
    VH_CHECK(c, bad.ok() && (*bad)->CreateRequest(q.keys).status().code() == absl::StatusCode::kUnavailable, "encryption_error_lost", "cuckoo");
  } else {
    auto bad = SimpleHashingSparseDpfPirClient::Create(w.params, [](absl::string_view, absl::string_view) -> absl::StatusOr<std::string> { return absl::UnavailableError("no key"); });
    VH_CHECK(c, bad.ok() && (*bad)->CreateRequest(q.keys).status().code() == absl::StatusCode::kUnavailable, "encryption_error_lost", "simple");
  }
}

// What a helper answers.
VH_GROUP(helpers, 4500, 40000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 60);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  std::atomic<int> evals{0};
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h.Decrypter(), &evals);
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, helper.ok() && plain.ok() && cl.ok(), "setup_refused", "%s", S(helper.status()).c_str());
  VH_CHECK(c, h.decrypts.empty() && evals == 0, "early_work", "%d", evals.load());
  auto req = cl->CreateRequest(AnyQuery(r, w, 6));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  DpfPirRequest::HelperRequest hr;
  if (!hr.ParseFromString(h.encrypts.back().plain)) return;
  PirRequest to_helper;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = req->first.dpf_pir_request().leader_request().encrypted_helper_request();
  auto want = (*plain)->HandleRequest(Wrap(hr.plain_request()));
  VH_CHECK(c, want.ok(), "plain_refused", "%s", S(want.status()).c_str());
  for (int k = 1; k <= 2; ++k) {  // repeated requests get repeated answers
    auto got = (*helper)->HandleRequest(to_helper);
    VH_CHECK(c, got.ok(), "helper_refused", "%s", S(got.status()).c_str());
    VH_CHECK(c, evals == k, "evaluations", "%d", evals.load());
    VH_CHECK(c, h.decrypts.size() == static_cast<size_t>(k) && h.decrypts.back().context == w.Context() && h.decrypts.back().cipher == h.encrypts.back().cipher,
             "decrypter_calls", "%zu, %s", h.decrypts.size(), h.decrypts.back().context.c_str());
    VH_CHECK(c, got->SerializeAsString() == Mask(*want, hr.one_time_pad_seed()).SerializeAsString(), "masked_response", "%s", Hex(got->SerializeAsString()).c_str());
    c.Count("masked", static_cast<uint64_t>(got->dpf_pir_response().masked_response_size()));
  }
  // Other seeds, by hand, including none and wrong lengths.
  DpfPirRequest::HelperRequest other = hr;
  std::string seed = r.bytes(r.chance(1, 2) ? 16 : r.below(40));
  if (r.chance(1, 8)) seed = std::string(16, '\0');
  other.set_one_time_pad_seed(seed);
  auto x = h.Encrypt(other.SerializeAsString(), w.Context());
  to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*x);
  auto got = (*helper)->HandleRequest(to_helper);
  if (seed.size() == 16) {
    VH_CHECK(c, got.ok() && got->SerializeAsString() == Mask(*want, seed).SerializeAsString(), "masked_response", "seed %s", Hex(seed).c_str());
  } else {
    VH_CHECK(c, got.status().code() == kInvalid, "bad_seed_accepted", "%zu bytes: %s", seed.size(), S(got.status()).c_str());
    c.Count("bad_seeds");
  }
  // Encrypted for another context, corrupted, or not a request at all.
  int before = evals;
  x = h.Encrypt(hr.SerializeAsString(), std::string(w.Context()) + (r.chance(1, 2) ? "2" : " "));
  to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*x);
  VH_CHECK(c, (*helper)->HandleRequest(to_helper).status().code() == absl::StatusCode::kPermissionDenied, "decryption_error_lost", "context");
  std::string cipher = h.encrypts.front().cipher;
  cipher[r.below(cipher.size())] ^= 1;
  to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(cipher);
  VH_CHECK(c, (*helper)->HandleRequest(to_helper).status().code() == absl::StatusCode::kPermissionDenied, "decryption_error_lost", "corrupted");
  x = h.Encrypt("\xff\xff\xff not a message", w.Context());
  to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*x);
  VH_CHECK(c, (*helper)->HandleRequest(to_helper).status().code() == kInvalid, "garbage_accepted", "plaintext");
  VH_CHECK(c, evals == before, "evaluated_refused_request", "%d", evals - before);
}

// Long masks: many responses, or long ones, combined by a leader.
VH_GROUP(long_masks, 60, 900) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 30);
  bool longer = r.chance(1, 2);
  if (longer)
    for (auto& x : w.records)
      if (r.chance(1, 4)) x.second = r.bytes(r.below(r.chance(1, 4) ? 150000 : 5000));
  Query q = AnyQuery(r, w, longer ? 4 : 250);
  c.Desc("%s n=%zu q=%zu v=%016llx", KindName(w.kind), w.records.size(), q.size(w.kind), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  std::atomic<int> evals{0};
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h.Decrypter(), &evals);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, plain.ok() && helper.ok() && cl.ok(), "setup_refused", "%s", S(plain.status()).c_str());
  auto req = cl->CreateRequest(q);
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  DpfPirRequest::HelperRequest hr;
  if (!hr.ParseFromString(h.encrypts.back().plain)) return;
  auto theirs = (*plain)->HandleRequest(Wrap(hr.plain_request()));
  auto ours = (*plain)->HandleRequest(Wrap(req->first.dpf_pir_request().leader_request().plain_request()));
  VH_CHECK(c, theirs.ok() && ours.ok(), "plain_refused", "%s", S(theirs.status()).c_str());
  PirResponse masked = Mask(*theirs, hr.one_time_pad_seed());
  std::string sent;
  auto leader = MakeServer(w, PirRole::LEADER, [&](const PirRequest& x, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    wait();
    auto got = (*helper)->HandleRequest(x);
    if (got.ok()) sent = got->SerializeAsString();
    return got;
  });
  VH_CHECK(c, leader.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  auto got = (*leader)->HandleRequest(req->first);
  VH_CHECK(c, got.ok(), "leader_refused", "%s", S(got.status()).c_str());
  VH_CHECK(c, sent == masked.SerializeAsString(), "masked_response", "%d responses, %zu bytes", masked.dpf_pir_response().masked_response_size(), sent.size());
  auto want = XorResponses(*ours, masked);
  VH_CHECK(c, want.has_value(), "response_shapes", "%zu", want->size());
  VH_CHECK(c, got->dpf_pir_response().masked_response_size() == static_cast<int>(want->size()), "combined_number", "%d of %zu",
           got->dpf_pir_response().masked_response_size(), want->size());
  for (size_t i = 0; i < want->size(); ++i)
    VH_CHECK(c, got->dpf_pir_response().masked_response(static_cast<int>(i)) == (*want)[i], "combined_response", "response %zu of %zu", i, want->size());
  c.Count("masked", want->size());
  c.Count("masked_bytes", sent.size());
}

enum Run { BEFORE, THREAD, AFTER, TWICE, NEVER };
enum Reply { GOOD, RANDOM, ERROR, FEWER, MORE, NONE, LONGER, SHORTER, KINDLESS, REPLIES };

// How a leader works with its sender.
VH_GROUP(leaders, 9000, 80000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 60);
  Run run = static_cast<Run>(r.below(5));
  Reply reply = static_cast<Reply>(r.below(REPLIES));
  bool bad_plain = r.chance(1, 6);
  c.Desc("%s n=%zu run=%d reply=%d bad=%d v=%016llx", KindName(w.kind), w.records.size(), run, reply, bad_plain, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  std::atomic<int> evals{0};
  auto plain = MakeServer(w, PirRole::PLAIN);
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h.Decrypter());
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, plain.ok() && helper.ok() && cl.ok(), "setup_refused", "%s", S(plain.status()).c_str());
  auto req = cl->CreateRequest(AnyQuery(r, w, 5));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  PirRequest request = req->first;
  if (bad_plain) {
    auto* k = request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request()->mutable_dpf_key(0);
    if (k->correction_words_size() > 0 && r.chance(1, 2)) k->clear_correction_words();
    else k->clear_seed();
  }
  auto own = (*plain)->HandleRequest(Wrap(request.dpf_pir_request().leader_request().plain_request()));
  VH_CHECK(c, own.ok() || bad_plain, "plain_refused", "%s", S(own.status()).c_str());
  PirRequest forwarded;
  *forwarded.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = request.dpf_pir_request().leader_request().encrypted_helper_request();
  // The sender.
  int sends = 0;
  bool in_order = true;
  std::string seen;
  absl::StatusOr<PirResponse> answer = PirResponse();
  auto sender = [&](const PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    ++sends;
    seen = q.SerializeAsString();
    if (evals != 0) in_order = false;
    auto work = [&] {
      wait();
      if (run == TWICE) wait();
    };
    if (run == THREAD) {
      std::thread t(work);
      answer = (*helper)->HandleRequest(q);
      t.join();
    } else if (run == AFTER) {
      answer = (*helper)->HandleRequest(q);
      work();
    } else {
      if (run != NEVER) work();
      answer = (*helper)->HandleRequest(q);
    }
    if (run != NEVER && own.ok() && evals != (run == TWICE ? 2 : 1)) in_order = false;
    if (reply == GOOD || !answer.ok()) return answer;
    if (reply == ERROR) return absl::DeadlineExceededError("helper");
    auto* mr = answer->mutable_dpf_pir_response();
    int i = static_cast<int>(r.below(static_cast<uint64_t>(mr->masked_response_size())));
    switch (reply) {
      case RANDOM:
        for (auto& x : *mr->mutable_masked_response()) x = r.bytes(x.size());
        break;
      case FEWER: mr->mutable_masked_response()->RemoveLast(); break;
      case MORE: mr->add_masked_response(r.chance(1, 2) ? "" : mr->masked_response(0)); break;
      case NONE: mr->clear_masked_response(); break;
      case LONGER: *mr->mutable_masked_response(i) += r.bytes(1 + r.below(20)); break;
      case SHORTER: {
        auto& x = *mr->mutable_masked_response(i);
        x.resize(x.size() - 1 - (r.chance(1, 2) ? 0 : r.below(x.size())));
        break;
      }
      case KINDLESS: answer = PirResponse(); break;
      default: break;
    }
    return answer;
  };
  auto leader = MakeServer(w, PirRole::LEADER, sender, nullptr, &evals);
  VH_CHECK(c, leader.ok(), "leader_refused", "%s", S(leader.status()).c_str());
  VH_CHECK(c, sends == 0 && evals == 0, "early_work", "%d, %d", sends, evals.load());
  auto got = (*leader)->HandleRequest(request);
  VH_CHECK(c, sends == 1, "sender_calls", "%d", sends);
  VH_CHECK(c, seen == forwarded.SerializeAsString(), "forwarded_request", "%s", Hex(seen, 200).c_str());
  VH_CHECK(c, in_order, "work_outside_of_sender", "%d evaluations", evals.load());
  VH_CHECK(c, evals <= (run == TWICE ? 2 : run == NEVER ? 0 : 1), "evaluations", "%d", evals.load());
  if (run == NEVER) {
    VH_CHECK(c, !got.ok(), "unrun_work_ignored", "reply %d", reply);
    c.Count("never_run");
    return;
  }
  if (reply == ERROR) {
    VH_CHECK(c, got.status().code() == absl::StatusCode::kDeadlineExceeded, "helper_error_lost", "%s", S(got.status()).c_str());
    c.Count("helper_errors");
    return;
  }
  if (!own.ok()) {
    VH_CHECK(c, !got.ok(), "leader_error_lost", "%s", S(own.status()).c_str());
    c.Count("leader_errors");
    return;
  }
  if (reply != GOOD && reply != RANDOM) {
    VH_CHECK(c, !got.ok(), "wrong_shape_accepted", "reply %d: %d responses", reply, got->dpf_pir_response().masked_response_size());
    c.Count("wrong_shapes");
    return;
  }
  if (run == TWICE && !got.ok()) return;
  VH_CHECK(c, got.ok(), "leader_failed", "run %d reply %d: %s", run, reply, S(got.status()).c_str());
  auto x = XorResponses(*own, *answer);
  VH_CHECK(c, x.has_value() && got->dpf_pir_response().masked_response_size() == static_cast<int>(x->size()), "response_count", "%d",
           got->dpf_pir_response().masked_response_size());
  for (size_t i = 0; i < x->size(); ++i) {
    VH_CHECK(c, got->dpf_pir_response().masked_response(static_cast<int>(i)) == (*x)[i], "combined_response", "response %zu of %zu", i, x->size());
  }
  c.Count(run == THREAD ? "combined_in_thread" : "combined");
}

// Requests meant for someone else.
VH_GROUP(roles, 2700, 20000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, KindOf(c), 30);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  std::atomic<int> evals{0};
  int sends = 0;
  auto sender = [&](const PirRequest&, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    ++sends;
    wait();
    return PirResponse();
  };
  auto leader = MakeServer(w, PirRole::LEADER, sender, nullptr, &evals);
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h.Decrypter(), &evals);
  auto plain = MakeServer(w, PirRole::PLAIN, nullptr, nullptr, &evals);
  auto cl = MakeClient(w, &h);
  VH_CHECK(c, leader.ok() && helper.ok() && plain.ok() && cl.ok(), "setup_refused", "%s", S(leader.status()).c_str());
  auto role = [](const std::unique_ptr<PirServer>& s) { return static_cast<DpfPirServer*>(s.get())->role(); };
  VH_CHECK(c, role(*leader) == DpfPirServer::Role::kLeader && role(*helper) == DpfPirServer::Role::kHelper && role(*plain) == DpfPirServer::Role::kPlain,
           "role", "%d %d %d", (int)role(*leader), (int)role(*helper), (int)role(*plain));
  auto req = cl->CreateRequest(AnyQuery(r, w, 4));
  VH_CHECK(c, req.ok(), "request_refused", "%s", S(req.status()).c_str());
  PirRequest to_leader = req->first, to_helper, to_plain, empty, bare, no_plain = to_leader, no_cipher = to_leader, unwrapped;
  *to_helper.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = to_leader.dpf_pir_request().leader_request().encrypted_helper_request();
  *to_plain.mutable_dpf_pir_request()->mutable_plain_request() = to_leader.dpf_pir_request().leader_request().plain_request();
  bare.mutable_dpf_pir_request();
  no_plain.mutable_dpf_pir_request()->mutable_leader_request()->clear_plain_request();
  no_cipher.mutable_dpf_pir_request()->mutable_leader_request()->clear_encrypted_helper_request();
  unwrapped.mutable_dpf_pir_request()->mutable_leader_request();
  for (auto* x : {&empty, &bare, &to_helper, &to_plain, &no_plain, &no_cipher, &unwrapped}) {
    VH_CHECK(c, (*leader)->HandleRequest(*x).status().code() == kInvalid, "leader_accepts", "%s", x->ShortDebugString().c_str());
  }
  VH_CHECK(c, sends == 0, "refused_request_sent", "%d", sends);
  for (auto* x : {&empty, &bare, &to_leader, &to_plain, &unwrapped}) {
    VH_CHECK(c, (*helper)->HandleRequest(*x).status().code() == kInvalid, "helper_accepts", "%s", x->ShortDebugString().c_str());
  }
  VH_CHECK(c, h.decrypts.empty(), "refused_request_decrypted", "%zu", h.decrypts.size());
  for (auto* x : {&empty, &bare, &to_leader, &to_helper, &unwrapped}) {
    VH_CHECK(c, (*plain)->HandleRequest(*x).status().code() == kInvalid, "plain_accepts", "%s", x->ShortDebugString().c_str());
  }
  VH_CHECK(c, evals == 0, "evaluated_refused_request", "%d", evals.load());
  c.Count("refused", 17);
}

// A server of its own kind: the protocol for responses of any shape.
class Custom : public DpfPirServer {
 public:
  const PirServerPublicParams& GetPublicParams() const override { return params_; }
  absl::StatusOr<PirResponse> HandlePlainRequest(const PirRequest& q) const override {
    seen.push_back(q.SerializeAsString());
    return answer;
  }
  absl::Status Lead(ForwardHelperRequestFn f) { return MakeLeader(std::move(f)); }
  absl::Status Help(DecryptHelperRequestFn f, std::string context) { return MakeHelper(std::move(f), context); }
  absl::StatusOr<PirResponse> answer = PirResponse();
  mutable std::vector<std::string> seen;

 private:
  PirServerPublicParams params_;
};

VH_GROUP(custom_servers, 9000, 80000) {
  Rng& r = c.rng;
  Hybrid h(r.u64());
  std::string context = r.chance(1, 3) ? r.bytes(r.below(10)) : r.bytes(20 + r.below(60));
  auto shape = [&](int n) {
    PirResponse x;
    x.mutable_dpf_pir_response();
    for (int i = 0; i < n; ++i) {
      size_t len = r.chance(1, 5) ? 0 : r.chance(1, 4) ? 15 + r.below(3) : r.chance(1, 10) ? r.below(3000) : r.below(70);
      x.mutable_dpf_pir_response()->add_masked_response(r.bytes(len));
    }
    return x;
  };
  int n = static_cast<int>(r.chance(1, 10) ? r.below(60) : r.below(6));
  PirResponse la = shape(n), ha = la;
  for (auto& x : *ha.mutable_dpf_pir_response()->mutable_masked_response()) x = r.bytes(x.size());
  c.Desc("%d responses, context %s, v=%016llx", n, Hex(context, 8).c_str(), (unsigned long long)r.u64());
  Custom leader, helper, plain;
  VH_CHECK(c, leader.role() == DpfPirServer::Role::kPlain, "role", "initial");
  VH_CHECK(c, leader.Lead(nullptr).code() == kInvalid && leader.Help(nullptr, context).code() == kInvalid && leader.role() == DpfPirServer::Role::kPlain,
           "null_function_accepted", "role %d", (int)leader.role());
  leader.answer = la;
  helper.answer = ha;
  plain.answer = la;
  DpfPirRequest::PlainRequest lp, hp;
  lp.set_seed_fingerprint(static_cast<uint32_t>(r.u64()));
  hp.set_seed_fingerprint(static_cast<uint32_t>(r.u64()));
  lp.add_dpf_key()->mutable_seed()->set_high(r.u64());
  hp.add_dpf_key()->mutable_seed()->set_high(r.u64());
  // Plain servers pass requests through.
  auto got = plain.HandleRequest(Wrap(lp));
  VH_CHECK(c, got.ok() && got->SerializeAsString() == la.SerializeAsString() && plain.seen.size() == 1 && plain.seen[0] == Wrap(lp).SerializeAsString(),
           "plain_server", "%zu", plain.seen.size());
  // The helper; its context string does not outlive the call.
  absl::Status hs = helper.Help(h.Decrypter(), context);
  VH_CHECK(c, hs.ok() && helper.role() == DpfPirServer::Role::kHelper, "make_helper", "%s", S(hs).c_str());
  std::string churn = std::string(context.size(), '!') + "x";
  DpfPirRequest::HelperRequest hr;
  *hr.mutable_plain_request() = hp;
  hr.set_one_time_pad_seed(r.bytes(16));
  PirRequest request;
  *request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = lp;
  request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(*h.Encrypt(hr.SerializeAsString(), context));
  int sends = 0;
  PirResponse helped;
  absl::Status ls = leader.Lead([&](const PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
    ++sends;
    if (r.chance(1, 2)) wait(), wait = nullptr;
    auto x = helper.HandleRequest(q);
    if (wait) wait();
    if (x.ok()) helped = *x;
    return x;
  });
  VH_CHECK(c, ls.ok() && leader.role() == DpfPirServer::Role::kLeader, "make_leader", "%s", S(ls).c_str());
  got = leader.HandleRequest(request);
  VH_CHECK(c, got.ok(), "leader_failed", "%s", S(got.status()).c_str());
  VH_CHECK(c, sends == 1 && leader.seen.size() == 1 && helper.seen.size() == 1, "calls", "%d %zu %zu", sends, leader.seen.size(), helper.seen.size());
  VH_CHECK(c, leader.seen[0] == Wrap(lp).SerializeAsString() && helper.seen[0] == Wrap(hp).SerializeAsString(), "requests_passed_on", "%s", Hex(helper.seen[0]).c_str());
  VH_CHECK(c, h.decrypts.size() == 1 && h.decrypts[0].context == context, "decryption_context", "%s of %s", Hex(h.decrypts[0].context).c_str(), Hex(context).c_str());
  VH_CHECK(c, helped.SerializeAsString() == Mask(ha, hr.one_time_pad_seed()).SerializeAsString(), "helper_mask", "%d responses", n);
  PirResponse want = Mask(ha, hr.one_time_pad_seed());
  for (int i = 0; i < n; ++i) *want.mutable_dpf_pir_response()->mutable_masked_response(i) = XorStr(want.dpf_pir_response().masked_response(i), la.dpf_pir_response().masked_response(i));
  VH_CHECK(c, got->dpf_pir_response().masked_response_size() == n, "response_count", "%d", got->dpf_pir_response().masked_response_size());
  for (int i = 0; i < n; ++i)
    VH_CHECK(c, got->dpf_pir_response().masked_response(i) == want.dpf_pir_response().masked_response(i), "combined_response", "%d of %d", i, n);
  c.Count("shapes");
  // Shapes that differ at one place.
  PirResponse other = ha;
  auto* mr = other.mutable_dpf_pir_response();
  if (n > 1 && r.chance(1, 3)) {
    int a = static_cast<int>(r.below(static_cast<uint64_t>(n))), b = static_cast<int>(r.below(static_cast<uint64_t>(n)));
    mr->mutable_masked_response()->SwapElements(a, b);
  } else if (n > 0 && r.chance(1, 2)) {
    auto& x = *mr->mutable_masked_response(static_cast<int>(r.below(static_cast<uint64_t>(n))));
    if (r.chance(1, 2) || x.empty()) x += "y"; else x.pop_back();
  } else {
    mr->add_masked_response("");
  }
  bool fits = mr->masked_response_size() == n;
  for (int i = 0; fits && i < n; ++i) fits = mr->masked_response(i).size() == la.dpf_pir_response().masked_response(i).size();
  helper.answer = other;
  got = leader.HandleRequest(request);
  VH_CHECK(c, got.ok() == fits, "shape_check", "%d", fits);
  if (!fits) c.Count("wrong_shapes");
  // Errors pass through.
  helper.answer = absl::ResourceExhaustedError("helper");
  VH_CHECK(c, leader.HandleRequest(request).status().code() == absl::StatusCode::kResourceExhausted, "helper_error_lost", "%d", n);
  helper.answer = ha;
  leader.answer = absl::AbortedError("leader");
  VH_CHECK(c, leader.HandleRequest(request).status().code() == absl::StatusCode::kAborted, "leader_error_lost", "%d", n);
  plain.answer = absl::OutOfRangeError("plain");
  VH_CHECK(c, plain.HandleRequest(Wrap(lp)).status().code() == absl::StatusCode::kOutOfRange, "plain_error_lost", "%d", n);
}

}  // namespace
}  // namespace vh
