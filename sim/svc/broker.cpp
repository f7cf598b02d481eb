#include "broker.hpp"
#include "../core/internal.hpp"
#include <apr_network_io.h>
#include <apr_pools.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
using namespace sim;

int deploy_main(int argc, char *argv[]);

namespace svc {
std::vector<Broker *> brokers;
std::vector<PConn> conns;
std::vector<Taken> taken;
std::vector<Delivered> delivered;
std::function<uint64_t()> sendTime, connectTime;
std::function<void(Taken &)> onTaken;
std::function<bool(const char *)> opFault;
bool receiveThrows, closeThrows;
int libraryUses;

Broker *addBroker(std::string const &host) {
  Broker *b = new Broker();
  b->host = host;
  brokers.push_back(b);
  return b;
}
void put(Broker *b, std::string const &q, Wire const &m) {
  b->queues[q].push_back(m);
  wake_all(b);
}
static void callback(PConn c, std::function<void()> f, const char *what) {
  spawn(std::string("transport-") + what, [c, f] {
    sleep_us(draw(4) * 1000);
    if (!c->open) return;
    c->callbacks++;
    sut(f);
    c->callbacks--;
    wake_all(c.get());
  });
}
void breakConn(PConn c, const char *why) {
  if (c->broken || !c->open) return;
  c->broken = true;
  ev("  connection %d to %s breaks: %s", c->id, c->b->host.c_str(), why);
  wake_all(c->b);
  wake_all(c.get());
  callback(c, [c] { if (c->el) c->el->onException(cms::CMSException("connection lost")); }, "failed");
}
void setUp(Broker *b, bool up) {
  b->up = up;
  ev("  broker %s goes %s", b->host.c_str(), up ? "up" : "down");
  if (!up) for (size_t i = 0; i < conns.size(); i++) if (conns[i]->b == b) breakConn(conns[i], "broker down");
}
void interrupt(PConn c) {
  if (c->broken || !c->open || c->interrupted) return;
  c->interrupted = true;
  ev("  connection %d interrupted", c->id);
  callback(c, [c] { for (auto l : c->tl) l->transportInterrupted(); }, "interrupted");
}
void resume(PConn c) {
  if (!c->interrupted) return;
  c->interrupted = false;
  wake_all(c.get()); wake_all(c->b);
  callback(c, [c] { for (auto l : c->tl) l->transportResumed(); }, "resumed");
}
int liveConsumers(Broker *b) {
  int n = 0;
  for (auto &c : conns) if (c->b == b && c->open && !c->broken && c->started) n += c->consumers;
  return n;
}

// ---- selectors: a small part of the JMS grammar ---------------------------------------
struct Sel {
  const char *p; Wire const &m;
  Sel(const char *s, Wire const &w) : p(s), m(w) {}
  void ws() { while (*p == ' ' || *p == '\t') p++; }
  bool word(const char *w) {
    ws();
    size_t n = strlen(w);
    if (strncasecmp(p, w, n) || isalnum((unsigned char)p[n]) || p[n] == '_') return false;
    p += n; return true;
  }
  bool sym(const char *w) { ws(); size_t n = strlen(w); if (strncmp(p, w, n)) return false; p += n; return true; }
  bool lit(Val &v) {
    ws();
    if (*p == '\'') { p++; v.k = Val::STR; while (*p && *p != '\'') v.s += *p++; if (*p) p++; return true; }
    if (isdigit((unsigned char)*p) || *p == '-') { char *e; v.k = Val::INT; v.i = strtoll(p, &e, 10); p = e; return true; }
    return false;
  }
  static bool same(Val const &a, Val const &b) { return (a.k == Val::STR) == (b.k == Val::STR) && (a.k == Val::STR ? a.s == b.s : a.i == b.i); }
  bool prim() {
    if (sym("(")) { bool r = orE(); if (!sym(")")) throw cms::InvalidSelectorException("selector"); return r; }
    if (word("NOT")) return !prim();
    ws();
    std::string id;
    while (isalnum((unsigned char)*p) || *p == '_') id += *p++;
    auto it = m.props.find(id);
    bool have = it != m.props.end();
    if (word("IN")) {
      bool r = false; Val v;
      if (!sym("(")) throw cms::InvalidSelectorException("selector");
      do { v = Val(); if (!lit(v)) throw cms::InvalidSelectorException("selector"); if (have && same(it->second, v)) r = true; } while (sym(","));
      if (!sym(")")) throw cms::InvalidSelectorException("selector");
      return r;
    }
    int op = sym("<>") ? 1 : sym("<=") ? 2 : sym(">=") ? 3 : sym("=") ? 0 : sym("<") ? 4 : sym(">") ? 5 : -1;
    Val v;
    if (op < 0 || id.empty() || !lit(v)) throw cms::InvalidSelectorException("selector");
    if (!have) return false;
    if (op == 0) return same(it->second, v);
    if (it->second.k == Val::STR || v.k == Val::STR) return op == 1 && it->second.k == v.k && !same(it->second, v);
    long long a = it->second.i, b = v.i;
    return op == 1 ? a != b : op == 2 ? a <= b : op == 3 ? a >= b : op == 4 ? a < b : a > b;
  }
  bool andE() { bool r = prim(); while (word("AND")) { bool x = prim(); r = r && x; } return r; }
  bool orE() { bool r = andE(); while (word("OR")) { bool x = andE(); r = r || x; } return r; }
  bool all() { bool r = orE(); ws(); if (*p) throw cms::InvalidSelectorException("selector"); return r; }
};

// ---- destinations and messages ------------------------------------------------------------
struct QueueImpl : cms::Queue {
  std::string n;
  QueueImpl(std::string const &s) : n(s) {}
  std::string getQueueName() const override { return n; }
  DestinationType getDestinationType() const override { return QUEUE; }
  cms::Destination *clone() const override { Harness h; return new QueueImpl(n); }
  void copy(const cms::Destination &d) override { n = static_cast<const QueueImpl &>(d).n; }
  bool equals(const cms::Destination &d) const override { auto *q = dynamic_cast<const QueueImpl *>(&d); return q && q->n == n; }
};
struct TempImpl : cms::TemporaryQueue {
  std::string n;
  TempImpl(std::string const &s) : n(s) {}
  std::string getQueueName() const override { return n; }
  void destroy() override {}
  DestinationType getDestinationType() const override { return TEMPORARY_QUEUE; }
  cms::Destination *clone() const override { Harness h; return new TempImpl(n); }
  void copy(const cms::Destination &d) override { n = static_cast<const TempImpl &>(d).n; }
  bool equals(const cms::Destination &d) const override { auto *q = dynamic_cast<const TempImpl *>(&d); return q && q->n == n; }
};
static std::string destName(const cms::Destination *d) {
  if (auto *q = dynamic_cast<const cms::Queue *>(d)) return q->getQueueName();
  if (auto *q = dynamic_cast<const cms::TemporaryQueue *>(d)) return q->getQueueName();
  throw cms::InvalidDestinationException("not a queue");
}
template <class Base> struct MsgImpl : Base {
  Wire w;
  cms::Destination *reply = nullptr;
  MsgImpl() {}
  MsgImpl(Wire const &x) : w(x) { if (w.hasReply) { if (w.replyTemp) reply = new TempImpl(w.replyQueue); else reply = new QueueImpl(w.replyQueue); } }
  ~MsgImpl() { delete reply; }
  Val const &get(std::string const &n) const {
    auto i = w.props.find(n);
    if (i == w.props.end()) throw cms::CMSException("no property " + n);
    return i->second;
  }
  long long num(std::string const &n) const {
    Val const &v = get(n);
    if (v.k == Val::STR) {
      char *e; long long r = strtoll(v.s.c_str(), &e, 10);
      if (v.s.empty() || *e) throw cms::MessageFormatException("property " + n + " is not a number");
      return r;
    }
    return v.i;
  }
  void acknowledge() const override {}
  void clearBody() override { Harness h; w.body.clear(); }
  void clearProperties() override { Harness h; w.props.clear(); }
  std::vector<std::string> getPropertyNames() const override { std::vector<std::string> r; for (auto &p : w.props) r.push_back(p.first); return r; }
  bool propertyExists(const std::string &n) const override { return w.props.count(n) != 0; }
  bool getBooleanProperty(const std::string &n) const override { return num(n) != 0; }
  double getDoubleProperty(const std::string &n) const override { return get(n).d; }
  int getIntProperty(const std::string &n) const override { return (int)num(n); }
  long long getLongProperty(const std::string &n) const override { return num(n); }
  std::string getStringProperty(const std::string &n) const override { Val const &v = get(n); return v.k == Val::STR ? v.s : std::to_string(v.i); }
  void setBooleanProperty(const std::string &n, bool v) override { Harness h; w.props[n] = Val(); w.props[n].k = Val::BOOL; w.props[n].i = v; }
  void setDoubleProperty(const std::string &n, double v) override { Harness h; w.props[n] = Val(); w.props[n].k = Val::DBL; w.props[n].d = v; }
  void setIntProperty(const std::string &n, int v) override { Harness h; w.props[n] = Val(); w.props[n].k = Val::INT; w.props[n].i = v; }
  void setLongProperty(const std::string &n, long long v) override { Harness h; w.props[n] = Val(); w.props[n].k = Val::LONG; w.props[n].i = v; }
  void setStringProperty(const std::string &n, const std::string &v) override { Harness h; w.props[n] = Val(); w.props[n].k = Val::STR; w.props[n].s = v; }
  std::string getCMSCorrelationID() const override { return w.corr; }
  void setCMSCorrelationID(const std::string &s) override { w.corr = s; }
  int getCMSDeliveryMode() const override { return 1; }
  const cms::Destination *getCMSDestination() const override { return nullptr; }
  long long getCMSExpiration() const override { return 0; }
  std::string getCMSMessageID() const override { return "ID:" + std::to_string(w.id); }
  int getCMSPriority() const override { return 4; }
  bool getCMSRedelivered() const override { return false; }
  const cms::Destination *getCMSReplyTo() const override { return reply; }
  void setCMSReplyTo(const cms::Destination *d) override { Harness h; delete reply; reply = d ? d->clone() : nullptr; }
  long long getCMSTimestamp() const override { return 0; }
  std::string getCMSType() const override { return ""; }
  void setCMSType(const std::string &) override {}
};
struct TextImpl : MsgImpl<cms::TextMessage> {
  TextImpl() {}
  TextImpl(Wire const &x) : MsgImpl(x) {}
  cms::Message *clone() const override { Harness h; return new TextImpl(w); }
  std::string getText() const override { if (w.unreadable) throw cms::CMSException("the text cannot be decompressed"); return w.body; }
  void setText(const char *s) override { Harness h; w.body = s ? s : ""; }
  void setText(const std::string &s) override { Harness h; w.body = s; }
};
struct BytesImpl : MsgImpl<cms::BytesMessage> {
  BytesImpl(Wire const &x) : MsgImpl(x) {}
  cms::Message *clone() const override { Harness h; return new BytesImpl(w); }
  int getBodyLength() const override { return (int)w.body.size(); }
};

// ---- connections ------------------------------------------------------------------------------
static void check(PConn const &c, const char *op) {
  Harness h;
  yield();
  if (!c->open) throw cms::IllegalStateException("the connection is closed");
  if (!c->broken && opFault && opFault(op)) { fault((std::string("broker_") + op).c_str()); breakConn(c, op); }
  if (c->broken) throw cms::CMSException(std::string("connection lost in ") + op);
}
struct ConsumerImpl : activemq::core::ActiveMQConsumer {
  PConn c; std::string q, sel; int last = -1; bool closed = false;
  ConsumerImpl(PConn k, std::string const &n, std::string const &s) : c(k), q(n), sel(s) { Harness h; Wire none; if (!sel.empty()) Sel(sel.c_str(), none).all(); c->consumers++; }
  ~ConsumerImpl() { Harness h; close(); }
  void close() override { if (closed) return; closed = true; c->consumers--; done(); wake_all(c->b); }
  void done() { if (last >= 0) { taken[last].handled = true; taken[last].handledAt = now_us(); last = -1; } }
  cms::Message *get(int64_t us) {
    Harness h;
    done();
    yield();
    uint64_t end = now_us() + (us < 0 ? 0 : (uint64_t)us);
    for (;;) {
      if (closed || !c->open) return nullptr;
      if (c->broken) {
        if (receiveThrows) throw cms::CMSException("connection lost in receive");
        if (us > 0 && now_us() < end) sleep_us(std::min<uint64_t>(end - now_us(), 100000));
        return nullptr;
      }
      if (c->started && !c->interrupted) {
        auto &dq = c->b->queues[q];
        for (size_t i = 0; i < dq.size(); i++) {
          if (!sel.empty() && !Sel(sel.c_str(), dq[i]).all()) continue;
          Wire m = dq[i];
          dq.erase(dq.begin() + i);
          last = (int)taken.size();
          taken.push_back(Taken{m, q, c, now_us(), 0, false, false, self()});
          ev("  message %d is handed to connection %d", m.id, c->id);
          if (onTaken) onTaken(taken.back());
          return m.isText ? (cms::Message *)new TextImpl(m) : (cms::Message *)new BytesImpl(m);
        }
      }
      if (us == 0 || (us > 0 && now_us() >= end)) return nullptr;
      block_on(c->b, "receive", us < 0 ? -1 : (int64_t)(end - now_us()));
    }
  }
  cms::Message *receive() override { return get(-1); }
  cms::Message *receive(int ms) override { return get(ms <= 0 ? -1 : (int64_t)ms * 1000); }
  cms::Message *receiveNoWait() override { return get(0); }
  void setMessageListener(cms::MessageListener *) override { harness_error("message listeners are not simulated"); }
  cms::MessageListener *getMessageListener() const override { return nullptr; }
  std::string getMessageSelector() const override { return sel; }
  void start() override {}
  void stop() override {}
};
struct ProducerImpl : activemq::core::ActiveMQProducer {
  PConn c; const cms::Destination *def; int mode = 0; long long to = 0;
  ProducerImpl(PConn k, const cms::Destination *d) : c(k), def(d) {}
  void deliver(const cms::Destination *d, cms::Message *m) {
    Harness h;
    check(c, "send");
    if (!d || !m) throw cms::InvalidDestinationException("no destination");
    std::string q = destName(d);
    auto *t = dynamic_cast<TextImpl *>(m);
    if (!t) throw cms::MessageFormatException("not a message of this provider");
    uint64_t us = sendTime ? sendTime() : 0;
    if (us) sleep_us(us);
    while (c->interrupted && c->open && !c->broken) block_on(c.get(), "send", 1000000);
    check(c, "send");
    delivered.push_back(Delivered{t->w, c->b, q, now_us(), c});
    ev("  reply to %s at %s: command %lld payload %lld ref %s", q.c_str(), c->b->host.c_str(), t->w.num("Command"), t->w.num("Payload"), t->w.str("CasReference").c_str());
    if (opFault && opFault("send_acknowledged")) { fault("broker_send_acknowledged"); breakConn(c, "after the send"); throw cms::CMSException("connection lost in send"); }
    wake_all(&delivered);
  }
  void send(cms::Message *m) override { deliver(def, m); }
  void send(cms::Message *m, int, int, long long) override { deliver(def, m); }
  void send(const cms::Destination *d, cms::Message *m) override { deliver(d, m); }
  void send(const cms::Destination *d, cms::Message *m, int, int, long long) override { deliver(d, m); }
  void setDeliveryMode(int m) override { mode = m; }
  int getDeliveryMode() const override { return mode; }
  void setDisableMessageID(bool) override {}
  bool getDisableMessageID() const override { return false; }
  void setPriority(int) override {}
  int getPriority() const override { return 4; }
  void setTimeToLive(long long) override {}
  long long getTimeToLive() const override { return 0; }
  void setSendTimeout(long long v) override { to = v; }
  long long getSendTimeout() const override { return to; }
  void close() override {}
};
struct SessionImpl : cms::Session {
  PConn c; AcknowledgeMode am;
  SessionImpl(PConn k, AcknowledgeMode a) : c(k), am(a) {}
  void close() override {}
  void start() override {}
  void stop() override {}
  void commit() override {}
  void rollback() override {}
  void recover() override {}
  cms::MessageConsumer *createConsumer(const cms::Destination *d) override { return createConsumer(d, "", false); }
  cms::MessageConsumer *createConsumer(const cms::Destination *d, const std::string &s) override { return createConsumer(d, s, false); }
  cms::MessageConsumer *createConsumer(const cms::Destination *d, const std::string &s, bool) override {
    Harness h;
    check(c, "create_consumer");
    if (!d) throw cms::InvalidDestinationException("no destination");
    return new ConsumerImpl(c, destName(d), s);
  }
  cms::MessageProducer *createProducer(const cms::Destination *d) override { Harness h; check(c, "create_producer"); return new ProducerImpl(c, d); }
  cms::Queue *createQueue(const std::string &n) override { Harness h; check(c, "create_queue"); if (n.empty()) throw cms::InvalidDestinationException("no name"); return new QueueImpl(n); }
  cms::TextMessage *createTextMessage() override { Harness h; check(c, "create_message"); return new TextImpl(); }
  cms::TextMessage *createTextMessage(const std::string &s) override { Harness h; check(c, "create_message"); TextImpl *t = new TextImpl(); t->w.body = s; return t; }
  AcknowledgeMode getAcknowledgeMode() const override { return am; }
  bool isTransacted() const override { return false; }
};
struct ConnImpl : activemq::core::ActiveMQConnection {
  PConn c;
  ConnImpl(Broker *b) : c(std::make_shared<Conn>()) { c->id = (int)conns.size(); c->b = b; c->since = now_us(); conns.push_back(c); }
  void shut() {
    Harness h;
    if (!c->open) return;
    c->open = false;
    ev("  connection %d is closed", c->id);
    wake_all(c->b); wake_all(c.get());
    while (c->callbacks) block_on(c.get(), "close");
  }
  ~ConnImpl() { shut(); }
  void close() override {
    Harness h;
    yield();
    bool bad = c->broken && c->open && closeThrows;
    shut();
    if (bad) { fault("broker_close"); throw cms::CMSException("connection lost in close"); }
  }
  void start() override { Harness h; check(c, "start"); c->started = true; ev("  connection %d starts delivery", c->id); wake_all(c->b); }
  void stop() override { Harness h; check(c, "stop"); c->started = false; ev("  connection %d stops delivery", c->id); }
  cms::Session *createSession() override { return createSession(cms::Session::AUTO_ACKNOWLEDGE); }
  cms::Session *createSession(cms::Session::AcknowledgeMode m) override { Harness h; check(c, "create_session"); return new SessionImpl(c, m); }
  std::string getClientID() const override { return ""; }
  void setClientID(const std::string &) override {}
  cms::ExceptionListener *getExceptionListener() const override { return c->el; }
  void setExceptionListener(cms::ExceptionListener *l) override { c->el = l; }
  void addTransportListener(activemq::transport::DefaultTransportListener *l) override { Harness h; c->tl.push_back(l); }
  void removeTransportListener(activemq::transport::DefaultTransportListener *l) override {
    for (size_t i = 0; i < c->tl.size(); i++) if (c->tl[i] == l) { c->tl.erase(c->tl.begin() + i); break; }
  }
};
struct FactoryImpl : activemq::core::ActiveMQConnectionFactory {
  std::string url, user, pw;
  FactoryImpl(std::string const &u) : url(u) {}
  cms::Connection *createConnection() override {
    Harness h;
    yield();
    uint64_t us = connectTime ? connectTime() : 0;
    if (us) sleep_us(us);
    for (auto b : brokers)
      if (url.find(b->host) != std::string::npos) {
        if (!b->up || (opFault && opFault("connect"))) {
          fault("broker_connect");
          sleep_us(1000);
          throw cms::CMSException("connection refused");
        }
        ConnImpl *k = new ConnImpl(b);
        ev("  connection %d to %s", k->c->id, b->host.c_str());
        return k;
      }
    sleep_us(1000);
    throw cms::CMSException("unknown host in " + url);
  }
  cms::Connection *createConnection(const std::string &, const std::string &) override { return createConnection(); }
  cms::Connection *createConnection(const std::string &, const std::string &, const std::string &) override { return createConnection(); }
  std::string getBrokerURL() const override { return url; }
  void setBrokerURL(const std::string &s) override { url = s; }
  std::string getUsername() const override { return user; }
  void setUsername(const std::string &s) override { user = s; }
  std::string getPassword() const override { return pw; }
  void setPassword(const std::string &s) override { pw = s; }
};

// ---- sockets -------------------------------------------------------------------------------------
bool listening;
std::function<bool(const char *)> sockFault;
Sock *logSock, *cmdSock;
void ctlSend(std::string const &b) { if (cmdSock && !cmdSock->peerGone) { cmdSock->in += b; wake_all(cmdSock); } }
void ctlClose() {
  listening = false;
  for (auto s : {logSock, cmdSock}) if (s) { s->peerGone = true; wake_all(s); }
}
bool signalKilled; int signalNo;
static void died(int sig) { signalKilled = true; signalNo = sig; ended = true; exitStatus = 128 + sig; endedAt = now_us(); wake_all(&ended); }
void deliverSignal(int sig) {
  struct sigaction a;
  sigaction(sig, nullptr, &a);
  ev("  signal %d", sig);
  fault("signal");
  if (a.sa_handler == SIG_IGN) return;
  if (a.sa_handler == SIG_DFL) { died(sig); return; }
  spawn("signal", [a, sig] { if (!ended) sut([&] { a.sa_handler(sig); }); });
}

// ---- stdin ----------------------------------------------------------------------------------------
static std::string typed; static bool typedEnd;
static ssize_t stdinRead(void *, char *buf, size_t n) {
  Harness h;
  while (typed.empty() && !typedEnd) block_on(&typed, "stdin");
  size_t k = std::min(n, typed.size());
  memcpy(buf, typed.data(), k);
  typed.erase(0, k);
  return (ssize_t)k;
}
void stdinSetup() {
  cookie_io_functions_t f = {stdinRead, nullptr, nullptr, nullptr};
  FILE *s = fopencookie(nullptr, "r", f);
  setvbuf(s, nullptr, _IOFBF, 64);
  stdin = s;
}
void stdinType(std::string const &s) { typed += s; wake_all(&typed); }
void stdinClose() { typedEnd = true; wake_all(&typed); }

// ---- the process -------------------------------------------------------------------------------------
bool ended; int exitStatus; uint64_t endedAt;
void startProcess(std::vector<std::string> const &args) {
  auto *a = new std::vector<std::string>(args);
  spawn("service", [a] {
    std::vector<char *> v;
    for (auto &s : *a) v.push_back((char *)s.c_str());
    v.push_back(nullptr);
    int r = sut([&] { return deploy_main((int)a->size(), v.data()); });
    if (!ended) { ended = true; exitStatus = r; endedAt = now_us(); ev("the process ends with %d", r); wake_all(&ended); }
  });
}
bool waitEnd(uint64_t us) {
  uint64_t end = now_us() + us;
  while (!ended && now_us() < end) block_on(&ended, "end of the process", (int64_t)(end - now_us()));
  return ended;
}
}  // namespace svc

using namespace svc;
cms::ConnectionFactory *cms::ConnectionFactory::createCMSConnectionFactory(const std::string &u) { Harness h; return new FactoryImpl(u); }
void activemq::library::ActiveMQCPP::initializeLibrary() { libraryUses++; }
void activemq::library::ActiveMQCPP::shutdownLibrary() { libraryUses--; }

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status) {
  if (!R.inChild) __real_exit(status);
  Harness h;
  if (!ended) { ended = true; exitStatus = status; endedAt = now_us(); ev("the process exits with %d", status); wake_all(&ended); }
  for (;;) block_on(&exitStatus, "exited", 3600ll * 1000000);
}
apr_status_t __wrap_apr_sockaddr_info_get(apr_sockaddr_t **sa, const char *, apr_int32_t, apr_port_t port, apr_int32_t, apr_pool_t *p) {
  Harness h;
  if (sockFault && sockFault("resolve")) { fault("socket_resolve"); return APR_EGENERAL; }
  *sa = (apr_sockaddr_t *)apr_pcalloc(p, sizeof **sa);
  (*sa)->port = port; (*sa)->family = APR_INET; (*sa)->pool = p;
  return APR_SUCCESS;
}
static apr_status_t freeSock(void *s) { if (logSock == s) logSock = nullptr; if (cmdSock == s) cmdSock = nullptr; delete (Sock *)s; return APR_SUCCESS; }
apr_status_t __wrap_apr_socket_create(apr_socket_t **s, int, int, int, apr_pool_t *p) {
  Harness h;
  if (sockFault && sockFault("create")) { fault("socket_create"); return APR_EGENERAL; }
  Sock *k = new Sock();
  apr_pool_cleanup_register(p, k, freeSock, apr_pool_cleanup_null);
  *s = (apr_socket_t *)k;
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_socket_connect(apr_socket_t *s, apr_sockaddr_t *sa) {
  Harness h;
  Sock *k = (Sock *)s;
  yield();
  if (!listening || (sockFault && sockFault("connect"))) { fault("socket_connect"); return ECONNREFUSED; }
  k->connected = true; k->port = sa->port;
  if (!logSock) { logSock = k; k->name = "log"; } else { cmdSock = k; k->name = "commands"; }
  ev("  the service connects its %s socket", k->name.c_str());
  wake_all(&listening);
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_socket_send(apr_socket_t *s, const char *b, apr_size_t *n) {
  Harness h;
  Sock *k = (Sock *)s;
  yield();
  if (k->closed || k->shut || !k->connected) { *n = 0; return k->shut && !k->closed ? EPIPE : EBADF; }
  if (k->peerGone) {
    struct sigaction a;
    sigaction(SIGPIPE, nullptr, &a);
    fault("socket_send");
    if (a.sa_handler == SIG_DFL) fail("crash:SIGPIPE", "the controller has gone, and writing to it kills the service");
    *n = 0;
    return EPIPE;
  }
  size_t len = *n;
  if (len > 1 && sockFault && sockFault("short_send")) { fault("socket_short_send"); len = 1 + draw((uint32_t)len - 1); }
  k->out.append(b, len);
  *n = len;
  wake_all(&k->out);
  wake_all(&listening);
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_socket_recv(apr_socket_t *s, char *b, apr_size_t *n) {
  Harness h;
  Sock *k = (Sock *)s;
  yield();
  uint64_t end = k->timeout < 0 ? 0 : now_us() + (uint64_t)k->timeout;
  for (;;) {
    if (k->closed) { *n = 0; return EBADF; }
    if (k->shut) { *n = 0; return APR_EOF; }
    if (!k->in.empty()) break;
    if (k->peerGone) { *n = 0; return sockFault && sockFault("reset") ? (fault("socket_reset"), ECONNRESET) : APR_EOF; }
    if (k->timeout >= 0 && now_us() >= end) { *n = 0; return APR_TIMEUP; }
    block_on(k, "recv", k->timeout < 0 ? -1 : (int64_t)(end - now_us()));
    if (sockFault && sockFault("timeup")) { fault("socket_timeup"); *n = 0; return APR_TIMEUP; }
  }
  size_t len = std::min<size_t>(*n, k->in.size());
  if (len > 1 && sockFault && sockFault("short_recv")) { fault("socket_short_recv"); len = 1 + draw((uint32_t)len - 1); }
  memcpy(b, k->in.data(), len);
  k->in.erase(0, len);
  *n = len;
  return APR_SUCCESS;
}
// closing a descriptor does not wake a thread that is blocked reading from it
apr_status_t __wrap_apr_socket_close(apr_socket_t *s) { Harness h; Sock *k = (Sock *)s; k->closed = true; ev("  the service closes its %s socket", k->name.c_str()); wake_all(&listening); return APR_SUCCESS; }
apr_status_t __wrap_apr_socket_shutdown(apr_socket_t *s, apr_shutdown_how_e) { Harness h; Sock *k = (Sock *)s; k->shut = true; wake_all(k); return APR_SUCCESS; }
apr_status_t __wrap_apr_socket_timeout_set(apr_socket_t *s, apr_interval_time_t t) { ((Sock *)s)->timeout = t; return APR_SUCCESS; }
apr_status_t __wrap_apr_socket_opt_set(apr_socket_t *, apr_int32_t, apr_int32_t) { return APR_SUCCESS; }
}
