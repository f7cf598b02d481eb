// the deployed service for the demonstrations: /repo's service sources on real threads against a small broker in memory
#pragma once
#include <cms_all.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
int deploy_main(int, char **);
struct Data { std::map<std::string, long long> ints; std::map<std::string, std::string> strs; std::string text, replyTo; bool isText = true; bool has(std::string k) const { return ints.count(k) || strs.count(k); } long long num(std::string k) const { auto i = ints.find(k); return i == ints.end() ? -1 : i->second; } std::string str(std::string k) const { auto i = strs.find(k); return i == strs.end() ? "<none>" : i->second; } };
typedef std::unique_lock<std::mutex> Lock;
struct Broker { std::map<std::string, std::deque<Data>> queues; bool up = true; };
static std::mutex &mx() { static std::mutex m; return m; }
static std::condition_variable &cv() { static std::condition_variable c; return c; }
static std::map<std::string, Broker> &brokers() { static std::map<std::string, Broker> b; return b; }
struct Conn;
static std::set<Conn *> &conns() { static std::set<Conn *> c; return c; }
static int &connects() { static int n = 0; return n; }
static std::string hostOf(std::string u) { auto p = u.find('?'); return u.substr(0, p); }
using namespace cms;
struct Dest : cms::Queue { std::string n; Dest(std::string s) : n(s) {} DestinationType getDestinationType() const { return QUEUE; } Destination *clone() const { return new Dest(n); } void copy(const Destination &) {} bool equals(const Destination &) const { return false; } std::string getQueueName() const { return n; } };
template <class B> struct MsgOf : B {
  Data d; std::unique_ptr<Dest> reply;
  Message *clone() const { return nullptr; } void acknowledge() const {} void clearBody() { d.text = ""; } void clearProperties() { d.ints.clear(); d.strs.clear(); }
  std::vector<std::string> getPropertyNames() const { return {}; }
  bool propertyExists(const std::string &k) const { return d.has(k); }
  long long i(const std::string &k) const { auto x = d.ints.find(k); if (x == d.ints.end()) throw MessageFormatException("no number " + k); return x->second; }
  bool getBooleanProperty(const std::string &k) const { return i(k); } double getDoubleProperty(const std::string &k) const { return i(k); } int getIntProperty(const std::string &k) const { return i(k); } long long getLongProperty(const std::string &k) const { return i(k); }
  std::string getStringProperty(const std::string &k) const { auto x = d.strs.find(k); if (x == d.strs.end()) throw MessageFormatException("no text " + k); return x->second; }
  void setBooleanProperty(const std::string &k, bool v) { d.ints[k] = v; } void setDoubleProperty(const std::string &k, double v) { d.ints[k] = v; } void setIntProperty(const std::string &k, int v) { d.ints[k] = v; } void setLongProperty(const std::string &k, long long v) { d.ints[k] = v; }
  void setStringProperty(const std::string &k, const std::string &v) { d.strs[k] = v; }
  std::string getCMSCorrelationID() const { return ""; } void setCMSCorrelationID(const std::string &) {} int getCMSDeliveryMode() const { return 1; } const Destination *getCMSDestination() const { return nullptr; } long long getCMSExpiration() const { return 0; } std::string getCMSMessageID() const { return ""; } int getCMSPriority() const { return 0; } bool getCMSRedelivered() const { return false; }
  const Destination *getCMSReplyTo() const { return reply.get(); } void setCMSReplyTo(const Destination *) {} long long getCMSTimestamp() const { return 0; } std::string getCMSType() const { return ""; } void setCMSType(const std::string &) {}
};
struct Text : MsgOf<TextMessage> { std::string getText() const { return d.text; } void setText(const char *s) { d.text = s; } void setText(const std::string &s) { d.text = s; } };
struct Bytes : MsgOf<BytesMessage> { int getBodyLength() const { return d.text.size(); } };
struct Conn : activemq::core::ActiveMQConnection {
  std::string host; bool started = false, broken = false; ExceptionListener *el = nullptr;
  ~Conn() { Lock l(mx()); conns().erase(this); }
  void check() { if (broken) throw CMSException("connection broken"); }
  void start() { Lock l(mx()); check(); started = true; cv().notify_all(); } void stop() { Lock l(mx()); check(); started = false; } void close() {}
  Session *createSession(); Session *createSession(Session::AcknowledgeMode) { return createSession(); }
  std::string getClientID() const { return ""; } void setClientID(const std::string &) {} ExceptionListener *getExceptionListener() const { return el; } void setExceptionListener(ExceptionListener *e) { Lock l(mx()); el = e; }
  void addTransportListener(activemq::transport::DefaultTransportListener *) {} void removeTransportListener(activemq::transport::DefaultTransportListener *) {}
};
struct Consumer : MessageConsumer {
  Conn *c; std::string q, sel;
  void start() {} void stop() {} void close() {}
  bool wants(Data const &d) { if (sel == "") return true; auto k = "Command = " + std::to_string(d.num("Command")); return sel.find(k) != std::string::npos; }
  Message *receive() { return receive(1 << 30); } Message *receiveNoWait() { return receive(0); }
  Message *receive(int ms) {
    Lock l(mx()); auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(std::min(ms, 50));  // the service only loops
    for (;;) {
      c->check();
      if (c->started) { auto &Q = brokers()[c->host].queues[q];
        for (size_t i = 0; i < Q.size(); ++i) if (wants(Q[i])) { Data d = Q[i]; Q.erase(Q.begin() + i); Message *m; std::unique_ptr<Dest> r(d.replyTo == "" ? nullptr : new Dest(d.replyTo)); if (d.isText) { auto *t = new Text; t->d = d; t->reply = std::move(r); m = t; } else { auto *t = new Bytes; t->d = d; t->reply = std::move(r); m = t; } return m; } }
      if (cv().wait_until(l, end) == std::cv_status::timeout) return nullptr;
    }
  }
  void setMessageListener(MessageListener *) {} MessageListener *getMessageListener() const { return nullptr; } std::string getMessageSelector() const { return sel; }
};
struct Producer : MessageProducer {
  Conn *c; void close() {}
  void send(Message *) {} void send(Message *, int, int, long long) {} void send(const Destination *d, Message *m, int, int, long long) { send(d, m); }
  void send(const Destination *d, Message *m) { Lock l(mx()); c->check(); brokers()[c->host].queues[dynamic_cast<const Dest *>(d)->n].push_back(dynamic_cast<Text *>(m)->d); cv().notify_all(); }
  void setDeliveryMode(int) {} int getDeliveryMode() const { return 1; } void setDisableMessageID(bool) {} bool getDisableMessageID() const { return false; } void setPriority(int) {} int getPriority() const { return 0; } void setTimeToLive(long long) {} long long getTimeToLive() const { return 0; }
};
struct Sess : Session {
  Conn *c; void start() {} void stop() {} void close() {} void commit() {} void rollback() {} void recover() {}
  MessageConsumer *createConsumer(const Destination *d) { return createConsumer(d, ""); }
  MessageConsumer *createConsumer(const Destination *d, const std::string &s) { auto *x = new Consumer; x->c = c; x->q = dynamic_cast<const Dest *>(d)->n; x->sel = s; return x; }
  MessageConsumer *createConsumer(const Destination *d, const std::string &s, bool) { return createConsumer(d, s); }
  MessageProducer *createProducer(const Destination *) { auto *p = new Producer; p->c = c; return p; }
  Queue *createQueue(const std::string &n) { return new Dest(n); } TextMessage *createTextMessage() { return new Text; } TextMessage *createTextMessage(const std::string &s) { auto *t = new Text; t->d.text = s; return t; }
  AcknowledgeMode getAcknowledgeMode() const { return AUTO_ACKNOWLEDGE; } bool isTransacted() const { return false; }
};
Session *Conn::createSession() { auto *s = new Sess; s->c = this; return s; }
struct Fact : activemq::core::ActiveMQConnectionFactory {
  std::string url;
  Connection *createConnection() { Lock l(mx()); ++connects(); if (!brokers()[hostOf(url)].up) throw CMSException("broker down"); auto *c = new Conn; c->host = hostOf(url); conns().insert(c); return c; }
  Connection *createConnection(const std::string &, const std::string &) { return createConnection(); } Connection *createConnection(const std::string &, const std::string &, const std::string &) { return createConnection(); }
  std::string getBrokerURL() const { return url; } void setBrokerURL(const std::string &u) { url = u; } std::string getUsername() const { return ""; } void setUsername(const std::string &) {} std::string getPassword() const { return ""; } void setPassword(const std::string &) {}
};
ConnectionFactory *ConnectionFactory::createCMSConnectionFactory(const std::string &u) { auto *f = new Fact; f->url = u; return f; }
void activemq::library::ActiveMQCPP::initializeLibrary() {}
void activemq::library::ActiveMQCPP::shutdownLibrary() {}

static const char *URL = "tcp://b1:61616";
static void ask(Data d, std::string q = "in", std::string host = URL) { Lock l(mx()); brokers()[host].queues[q].push_back(d); cv().notify_all(); }
static bool take(std::string q, Data &out, int ms = 5000, std::string host = URL) {
  Lock l(mx()); auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms); auto &Q = brokers()[host].queues[q];
  while (Q.empty()) if (cv().wait_until(l, end) == std::cv_status::timeout && Q.empty()) return false;
  out = Q.front(); Q.pop_front(); return true;
}
static void breakAll(std::string host = URL) { std::vector<ExceptionListener *> v; Lock l(mx()); for (auto *c : conns()) if (c->host == host) { c->broken = true; if (c->el) v.push_back(c->el); } for (auto *e : v) { l.unlock(); e->onException(CMSException("lost")); l.lock(); } cv().notify_all(); }
static void setUp(bool up, std::string host = URL) { Lock l(mx()); brokers()[host].up = up; }
static Data request(int command, std::string id = "", std::string reply = "out") { Data d; d.ints["Command"] = command; if (id != "") d.strs["CasReference"] = id; d.ints["MessageType"] = 3000; d.replyTo = reply; return d; }
static Data process(std::string body, std::string id = "c1", bool xmi = true) { Data d = request(2000, id); d.ints["Payload"] = xmi ? 1000 : 1004; d.text = body; return d; }
static std::string xmiOf(std::string text) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><xmi:XMI xmlns:xmi=\"http://www.omg.org/XMI\" xmlns:cas=\"http:///uima/cas.ecore\" xmi:version=\"2.0\"><cas:NULL xmi:id=\"0\"/><cas:Sofa xmi:id=\"1\" sofaNum=\"1\" sofaID=\"_InitialView\" mimeType=\"text\" sofaString=\"" + text + "\"/><cas:View sofa=\"1\" members=\"\"/></xmi:XMI>"; }
static int cmdFd = -1, logFd = -1;
static std::string line(int ms = 5000) {
  static std::string buf; auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  for (;;) {
    auto p = buf.find('\n'); if (p != std::string::npos) { std::string s = buf.substr(0, p); buf.erase(0, p + 1); if (s == "") continue; return s; }
    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count(); if (left <= 0) return "<no line>";
    struct pollfd f = {cmdFd, POLLIN, 0}; if (poll(&f, 1, left) <= 0) continue; char b[4096]; ssize_t n = read(cmdFd, b, sizeof b); if (n <= 0) return "<end>"; buf.append(b, n);
  }
}
static void cmd(std::string s) { if (write(cmdFd, s.data(), s.size()) < 0) abort(); }
static long long stat(std::string const &l, std::string k) { auto p = (" " + l).find(" " + k + "="); return p == std::string::npos ? -1 : atoll(l.c_str() + p + k.size() + 1); }
static std::string stats() { cmd("GETSTATS\n"); return line(); }
static void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
// starts the service on queue "in" of broker URL and waits until it is ready
static void serve(std::string descriptor, std::vector<std::string> extra = {}) {
  int ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
  CHECK(bind(ls, (struct sockaddr *)&a, n) == 0 && listen(ls, 4) == 0); getsockname(ls, (struct sockaddr *)&a, &n);
  std::ofstream("ae.xml") << descriptor;
  auto *args = new std::vector<std::string>{"deploy", "-b", URL, "-jport", std::to_string(ntohs(a.sin_port)), "-l", "2"};
  for (auto &e : extra) args->push_back(e);
  args->push_back("ae.xml"); args->push_back("in");
  std::thread([args] { auto *v = new std::vector<char *>; for (auto &s : *args) v->push_back(&s[0]); v->push_back(nullptr); deploy_main(args->size(), v->data()); }).detach();
  logFd = accept(ls, nullptr, nullptr); cmdFd = accept(ls, nullptr, nullptr);
  std::thread([] { char b[4096]; while (read(logFd, b, sizeof b) > 0) ; }).detach();
  CHECK(line(20000) == "0");
}
static void good() { printf("ok\n"); fflush(stdout); _exit(0); }
