// needs: pir
// C19: answers of more than 2^31 bytes are masked, combined and unmasked in
// full (built without sanitizers: the size is the point).
#include <openssl/aes.h>

#include <cstring>
#include <string>

#include "absl/strings/match.h"
#include "common/pirutil.h"
#include "common/vh.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dpf_pir_server.h"

namespace vh {
namespace {

using namespace distributed_point_functions;

class Custom : public DpfPirServer {
 public:
  const PirServerPublicParams& GetPublicParams() const override { return params_; }
  absl::StatusOr<PirResponse> HandlePlainRequest(const PirRequest&) const override {
    PirResponse x;
    x.mutable_dpf_pir_response()->add_masked_response(first);
    x.mutable_dpf_pir_response()->mutable_masked_response(0)->resize(size, '\0');
    return x;
  }
  absl::Status Lead(ForwardHelperRequestFn f) { return MakeLeader(std::move(f)); }
  absl::Status Help(DecryptHelperRequestFn f, std::string context) { return MakeHelper(std::move(f), context); }
  std::string first;
  size_t size = 0;

 private:
  PirServerPublicParams params_;
};

// Whether `x` is `first`, zero-padded, combined with the keystream of `seed`
// if that is not empty. Bytes are compared piece by piece.
bool Is(const std::string& x, const std::string& first, const std::string& seed, size_t size) {
  if (x.size() != size) return false;
  AES_KEY key;
  uint8_t iv[16] = {}, buffer[16] = {};
  unsigned num = 0;
  if (!seed.empty()) AES_set_encrypt_key(reinterpret_cast<const uint8_t*>(seed.data()), 128, &key);
  std::string piece;
  for (size_t at = 0; at < size; at += piece.size()) {
    piece.assign(std::min<size_t>(size - at, 1 << 20), '\0');
    if (at == 0) memcpy(&piece[0], first.data(), first.size());
    auto* p = reinterpret_cast<uint8_t*>(&piece[0]);
    if (!seed.empty()) AES_ctr128_encrypt(p, p, piece.size(), &key, iv, buffer, &num);
    if (memcmp(p, x.data() + at, piece.size()) != 0) return false;
  }
  return true;
}

VH_GROUP(huge_answers, 3, 6) {
  Rng& r = c.rng;
  Hybrid h(r.u64());
  const std::string context = "context", seed = r.bytes(16);
  const char* part[] = {"helper", "leader", "client"};
  Custom own;
  own.size = (size_t{1} << 31) + 1 + r.below(40);
  own.first = r.bytes(100);
  c.Desc("%s size=%zu", part[c.index % 3], own.size);
  if (c.index % 3 == 0) {
    DpfPirRequest::HelperRequest hr;
    hr.mutable_plain_request()->add_dpf_key()->mutable_seed()->set_high(1);
    hr.set_one_time_pad_seed(seed);
    PirRequest request;
    request.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(*h.Encrypt(hr.SerializeAsString(), context));
    VH_CHECK(c, own.Help(h.Decrypter(), context).ok(), "setup_refused", "helper");
    auto x = own.HandleRequest(request);
    VH_CHECK(c, x.ok() && x->dpf_pir_response().masked_response_size() == 1 && Is(x->dpf_pir_response().masked_response(0), own.first, seed, own.size),
             "helper_mask", "%zu bytes: %s", own.size, S(x.status()).c_str());
    c.Count("huge_masked");
  } else if (c.index % 3 == 1) {
    PirRequest request;
    request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request()->add_dpf_key();
    request.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request("?");
    std::string ends = r.bytes(100);
    absl::Status ls = own.Lead([&](const PirRequest&, absl::AnyInvocable<void()> wait) -> absl::StatusOr<PirResponse> {
      PirResponse x;
      std::string& m = *x.mutable_dpf_pir_response()->add_masked_response();
      m.resize(own.size, '\0');
      for (size_t i = 0; i < 100; ++i) m[own.size - 100 + i] = ends[i];
      wait();
      return x;
    });
    VH_CHECK(c, ls.ok(), "setup_refused", "%s", S(ls).c_str());
    auto x = own.HandleRequest(request);
    VH_CHECK(c, x.ok() && x->dpf_pir_response().masked_response_size() == 1, "leader_failed", "%s", S(x.status()).c_str());
    std::string& m = *x->mutable_dpf_pir_response()->mutable_masked_response(0);
    VH_CHECK(c, m.size() == own.size && absl::EndsWith(m, ends), "combined_response", "%zu bytes, end %s of %s", m.size(), Hex(m.substr(m.size() - 100)).c_str(), Hex(ends).c_str());
    for (size_t i = 0; i < 100; ++i) m[own.size - 100 + i] = '\0';
    VH_CHECK(c, Is(m, own.first, "", own.size), "combined_response", "%zu bytes", m.size());
    c.Count("huge_combined");
  } else {
    PirConfig config;
    config.mutable_dense_dpf_pir_config()->set_num_elements(10);
    auto client = DenseDpfPirClient::Create(config, h.Encrypter());
    VH_CHECK(c, client.ok(), "setup_refused", "%s", S(client.status()).c_str());
    PirRequestClientState state;
    state.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(seed);
    auto answer = own.HandlePlainRequest(PirRequest());
    auto clear = (*client)->HandleResponse(*answer, state);
    VH_CHECK(c, clear.ok() && clear->size() == 1 && Is((*clear)[0], own.first, seed, own.size), "client_unmasks", "%zu bytes: %s", own.size, S(clear.status()).c_str());
    c.Count("huge_unmasked");
  }
}

}  // namespace
}  // namespace vh
