// The three PIR schemes behind one face, with watched encryption, transport and
// databases. Include only from harnesses that need pir.
#ifndef VERIF_HARNESS_COMMON_PIRUTIL_H_
#define VERIF_HARNESS_COMMON_PIRUTIL_H_

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "absl/types/optional.h"
#include "common/refaes.h"
#include "common/vh.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/private_information_retrieval.pb.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"

namespace vh {

namespace dp = distributed_point_functions;

enum PirKind { DENSE, CUCKOO, SIMPLE };
inline const char* KindName(PirKind k) { return k == DENSE ? "dense" : k == CUCKOO ? "cuckoo" : "simple"; }

// AES-128-CTR from its definition, counter starting at zero.
inline std::string PadStream(const std::string& seed, size_t n) {
  Aes128 aes(reinterpret_cast<const uint8_t*>(seed.data()));
  std::string ctr(16, '\0'), out;
  while (out.size() < n) {
    uint8_t b[16];
    aes.Encrypt(reinterpret_cast<const uint8_t*>(ctr.data()), b);
    out.append(reinterpret_cast<char*>(b), 16);
    for (size_t i = 16; i-- > 0;) {
      ctr[i] = static_cast<char>(static_cast<uint8_t>(ctr[i]) + 1);
      if (ctr[i] != 0) break;
    }
  }
  out.resize(n);
  return out;
}

// Ideal hybrid encryption: ciphertexts are random, and only those made here
// under the same context decrypt.
class Hybrid {
 public:
  struct Call {
    std::string plain, context, cipher;
  };
  explicit Hybrid(uint64_t seed) : rng_(seed) {}
  absl::StatusOr<std::string> Encrypt(absl::string_view plain, absl::string_view context) {
    std::lock_guard<std::mutex> l(mu_);
    Call call{std::string(plain), std::string(context), rng_.bytes(24)};
    made_[call.cipher] = call;
    encrypts.push_back(call);
    return call.cipher;
  }
  absl::StatusOr<std::string> Decrypt(absl::string_view cipher, absl::string_view context) {
    std::lock_guard<std::mutex> l(mu_);
    decrypts.push_back({"", std::string(context), std::string(cipher)});
    auto it = made_.find(std::string(cipher));
    if (it == made_.end() || it->second.context != context) return absl::PermissionDeniedError("cannot decrypt");
    decrypts.back().plain = it->second.plain;
    return it->second.plain;
  }
  auto Encrypter() {
    return [this](absl::string_view p, absl::string_view c) { return Encrypt(p, c); };
  }
  auto Decrypter() {
    return [this](absl::string_view p, absl::string_view c) { return Decrypt(p, c); };
  }
  std::vector<Call> encrypts, decrypts;

 private:
  std::mutex mu_;
  Rng rng_;
  std::map<std::string, Call> made_;
};

// A database that counts how often it is asked.
template <typename I>
class CountingDb : public I {
 public:
  CountingDb(std::unique_ptr<I> db, std::atomic<int>* calls) : db_(std::move(db)), calls_(calls) {}
  absl::StatusOr<std::vector<typename I::ResponseType>> InnerProductWith(
      absl::Span<const std::vector<typename I::BlockType>> s) const override {
    ++*calls_;
    return db_->InnerProductWith(s);
  }
  size_t size() const override { return db_->size(); }
  size_t num_selection_bits() const override { return db_->num_selection_bits(); }

 private:
  std::unique_ptr<I> db_;
  std::atomic<int>* calls_;
};

struct Query {
  std::vector<int> indices;         // dense
  std::vector<std::string> keys;    // sparse
  size_t size(PirKind k) const { return k == DENSE ? indices.size() : keys.size(); }
};
using Answers = std::vector<absl::optional<std::string>>;
using PlainRequests =
    std::tuple<dp::DpfPirRequest::PlainRequest, dp::DpfPirRequest::HelperRequest, dp::PirRequestClientState>;

struct World {
  PirKind kind = DENSE;
  std::vector<std::pair<std::string, std::string>> records;  // the keys are ignored by dense databases
  dp::PirConfig config;
  dp::PirServerPublicParams params;
  const char* Context() const {
    return kind == DENSE ? "DenseDpfPirServer" : kind == CUCKOO ? "CuckooHashingSparseDpfPirServer" : "SimpleHashingSparseDpfPirServer";
  }
};

struct Client {
  std::unique_ptr<dp::DenseDpfPirClient> dense;
  std::unique_ptr<dp::CuckooHashingSparseDpfPirClient> cuckoo;
  std::unique_ptr<dp::SimpleHashingSparseDpfPirClient> simple;

  absl::StatusOr<std::pair<dp::PirRequest, dp::PirRequestClientState>> CreateRequest(const Query& q) const {
    if (dense) return dense->CreateRequest(q.indices);
    if (cuckoo) return cuckoo->CreateRequest(q.keys);
    return simple->CreateRequest(q.keys);
  }
  absl::StatusOr<PlainRequests> CreatePlainRequests(const Query& q) const {
    if (dense) return dense->CreatePlainRequests(q.indices);
    if (cuckoo) return cuckoo->CreatePlainRequests(q.keys);
    return simple->CreatePlainRequests(q.keys);
  }
  absl::StatusOr<Answers> HandleResponse(const dp::PirResponse& r, const dp::PirRequestClientState& s) const {
    if (cuckoo) return cuckoo->HandleResponse(r, s);
    if (simple) return simple->HandleResponse(r, s);
    auto a = dense->HandleResponse(r, s);
    if (!a.ok()) return a.status();
    return Answers(a->begin(), a->end());
  }
};

inline absl::StatusOr<Client> MakeClient(const World& w, Hybrid* h, absl::optional<std::string> context = absl::nullopt) {
  Client c;
  absl::Status s;
  if (w.kind == DENSE) {
    auto x = context ? dp::DenseDpfPirClient::Create(w.config, h->Encrypter(), *context) : dp::DenseDpfPirClient::Create(w.config, h->Encrypter());
    if (x.ok()) c.dense = *std::move(x); else s = x.status();
  } else if (w.kind == CUCKOO) {
    auto x = context ? dp::CuckooHashingSparseDpfPirClient::Create(w.params, h->Encrypter(), *context)
                     : dp::CuckooHashingSparseDpfPirClient::Create(w.params, h->Encrypter());
    if (x.ok()) c.cuckoo = *std::move(x); else s = x.status();
  } else {
    auto x = context ? dp::SimpleHashingSparseDpfPirClient::Create(w.params, h->Encrypter(), *context)
                     : dp::SimpleHashingSparseDpfPirClient::Create(w.params, h->Encrypter());
    if (x.ok()) c.simple = *std::move(x); else s = x.status();
  }
  if (!s.ok()) return s;
  return c;
}

// The world's records in their order, or in another one.
using Order = std::vector<size_t>;

inline absl::StatusOr<std::unique_ptr<dp::DenseDpfPirDatabase::Interface>> DenseDb(const World& w) {
  dp::DenseDpfPirDatabase::Builder b;
  for (auto& r : w.records) b.Insert(r.second);
  return b.Build();
}
inline absl::StatusOr<std::unique_ptr<dp::CuckooHashedDpfPirDatabase::Interface>> CuckooDb(const World& w, const Order& o = {}) {
  dp::CuckooHashedDpfPirDatabase::Builder b;
  b.SetParams(w.params.cuckoo_hashing_sparse_dpf_pir_server_params());
  for (size_t i = 0; i < w.records.size(); ++i) b.Insert(w.records[o.empty() ? i : o[i]]);
  return b.Build();
}
inline absl::StatusOr<std::unique_ptr<dp::SimpleHashedDpfPirDatabase::Interface>> SimpleDb(const World& w) {
  dp::SimpleHashedDpfPirDatabase::Builder b;
  b.SetParams(w.params.simple_hashing_sparse_dpf_pir_server_params());
  for (auto& r : w.records) b.Insert(r);
  return b.Build();
}

enum class PirRole { PLAIN, LEADER, HELPER };

template <typename Server, typename Config, typename I>
absl::StatusOr<std::unique_ptr<dp::PirServer>> MakeServerOf(PirRole role, const Config& config, std::unique_ptr<I> db,
                                                            dp::DpfPirServer::ForwardHelperRequestFn sender,
                                                            dp::DpfPirServer::DecryptHelperRequestFn decrypter, std::atomic<int>* calls) {
  if (calls) db = std::make_unique<CountingDb<I>>(std::move(db), calls);
  absl::StatusOr<std::unique_ptr<Server>> s =
      role == PirRole::PLAIN ? Server::CreatePlain(config, std::move(db))
      : role == PirRole::LEADER ? Server::CreateLeader(config, std::move(db), std::move(sender))
                             : Server::CreateHelper(config, std::move(db), std::move(decrypter));
  if (!s.ok()) return s.status();
  return std::unique_ptr<dp::PirServer>(*std::move(s));
}

inline absl::StatusOr<std::unique_ptr<dp::PirServer>> MakeServer(const World& w, PirRole role, dp::DpfPirServer::ForwardHelperRequestFn sender = nullptr,
                                                                 dp::DpfPirServer::DecryptHelperRequestFn decrypter = nullptr,
                                                                 std::atomic<int>* calls = nullptr, const Order& o = {}) {
  if (w.kind == DENSE) {
    auto db = DenseDb(w);
    if (!db.ok()) return db.status();
    return MakeServerOf<dp::DenseDpfPirServer>(role, w.config, *std::move(db), std::move(sender), std::move(decrypter), calls);
  }
  if (w.kind == CUCKOO) {
    auto db = CuckooDb(w, o);
    if (!db.ok()) return db.status();
    return MakeServerOf<dp::CuckooHashingSparseDpfPirServer>(role, w.params.cuckoo_hashing_sparse_dpf_pir_server_params(), *std::move(db),
                                                             std::move(sender), std::move(decrypter), calls);
  }
  auto db = SimpleDb(w);
  if (!db.ok()) return db.status();
  return MakeServerOf<dp::SimpleHashingSparseDpfPirServer>(role, w.params.simple_hashing_sparse_dpf_pir_server_params(), *std::move(db),
                                                           std::move(sender), std::move(decrypter), calls);
}

// A leader and a helper that talk over serialized messages.
struct Pair {
  std::unique_ptr<dp::PirServer> leader, helper;
};
inline absl::StatusOr<Pair> MakePair(const World& w, Hybrid* h, const Order& lo = {}, const Order& ho = {}) {
  Pair p;
  auto helper = MakeServer(w, PirRole::HELPER, nullptr, h->Decrypter(), nullptr, ho);
  if (!helper.ok()) return helper.status();
  p.helper = *std::move(helper);
  const dp::PirServer* hs = p.helper.get();
  auto leader = MakeServer(w, PirRole::LEADER, [hs](const dp::PirRequest& q, absl::AnyInvocable<void()> wait) -> absl::StatusOr<dp::PirResponse> {
    dp::PirRequest copy;
    if (!copy.ParseFromString(q.SerializeAsString())) return absl::DataLossError("request");
    wait();
    auto r = hs->HandleRequest(copy);
    if (!r.ok()) return r.status();
    dp::PirResponse out;
    if (!out.ParseFromString(r->SerializeAsString())) return absl::DataLossError("response");
    return out;
  }, nullptr, nullptr, lo);
  if (!leader.ok()) return leader.status();
  p.leader = *std::move(leader);
  return p;
}

inline dp::PirRequest Wrap(const dp::DpfPirRequest::PlainRequest& p) {
  dp::PirRequest r;
  *r.mutable_dpf_pir_request()->mutable_plain_request() = p;
  return r;
}

// XORs two responses; nullopt if their shapes differ.
inline absl::optional<std::vector<std::string>> XorResponses(const dp::PirResponse& a, const dp::PirResponse& b) {
  const auto &x = a.dpf_pir_response(), &y = b.dpf_pir_response();
  if (x.masked_response_size() != y.masked_response_size()) return absl::nullopt;
  std::vector<std::string> out;
  for (int i = 0; i < x.masked_response_size(); ++i) {
    std::string s = x.masked_response(i);
    if (s.size() != y.masked_response(i).size()) return absl::nullopt;
    for (size_t j = 0; j < s.size(); ++j) s[j] ^= y.masked_response(i)[j];
    out.push_back(s);
  }
  return out;
}
inline std::string StateSeed(const dp::PirRequestClientState& s) {
  if (s.has_dense_dpf_pir_request_client_state()) return s.dense_dpf_pir_request_client_state().one_time_pad_seed();
  if (s.has_cuckoo_hashing_sparse_dpf_pir_request_client_state())
    return s.cuckoo_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed();
  return s.simple_hashing_sparse_dpf_pir_request_client_state().one_time_pad_seed();
}
template <typename M>
M Stored(const M& m) {
  M out;
  if (!out.ParseFromString(m.SerializeAsString())) out.Clear();
  return out;
}

}  // namespace vh

#endif
