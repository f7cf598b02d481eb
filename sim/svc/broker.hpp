// The world around the service: message brokers, a controlling Java process, signals and stdin - all simulated.
#pragma once
#include "../core/sim.hpp"
#include <cms_all.h>
#include <deque>
#include <memory>
#include <set>

namespace svc {
struct Val { enum K { INT, LONG, STR, BOOL, DBL } k = INT; long long i = 0; double d = 0; std::string s; };
struct Wire {                               // a message, as a broker stores it
  int id = 0;
  std::map<std::string, Val> props;
  bool isText = true, unreadable = false;   // unreadable: its text cannot be had
  std::string body, replyQueue, corr;
  bool hasReply = false, replyTemp = false;
  void set(const char *n, int v) { props[n].k = Val::INT; props[n].i = v; }
  void set(const char *n, std::string const &v) { props[n].k = Val::STR; props[n].s = v; }
  bool has(const char *n) const { return props.count(n) != 0; }
  long long num(const char *n) const { auto i = props.find(n); return i == props.end() ? -1 : i->second.i; }
  std::string str(const char *n) const { auto i = props.find(n); return i == props.end() ? "" : i->second.s; }
};
struct Broker;
struct Conn {
  int id; Broker *b;
  bool open = true, started = false, broken = false, interrupted = false;
  int callbacks = 0, consumers = 0;
  uint64_t since = 0;
  cms::ExceptionListener *el = nullptr;
  std::vector<activemq::transport::DefaultTransportListener *> tl;
};
typedef std::shared_ptr<Conn> PConn;
struct Taken { Wire m; std::string queue; PConn c; uint64_t at, handledAt; bool handled, redelivered; int task; };
struct Delivered { Wire m; Broker *b; std::string queue; uint64_t at; PConn c; };
struct Broker {
  std::string host;                         // host:port
  bool up = true;
  std::map<std::string, std::deque<Wire>> queues;
};
extern std::vector<Broker *> brokers;
extern std::vector<PConn> conns;            // every connection ever made
extern std::vector<Taken> taken;            // what consumers were handed
extern std::vector<Delivered> delivered;    // what was sent to brokers by the service
extern std::function<uint64_t()> sendTime, connectTime;    // how long a send, a connect takes
extern std::function<void(Taken &)> onTaken;
extern std::function<bool(const char *)> opFault;          // should this broker operation fail (and break the connection)?
extern bool receiveThrows, closeThrows;     // on a broken connection
extern int libraryUses;
Broker *addBroker(std::string const &host);
void put(Broker *, std::string const &queue, Wire const &);  // a client's message arrives
void breakConn(PConn, const char *why);
void setUp(Broker *, bool);
void interrupt(PConn);
void resume(PConn);
int liveConsumers(Broker *);

// ---- the controlling process ----------------------------------------------------
struct Sock { int port = 0; bool connected = false, closed = false, shut = false, peerGone = false; int64_t timeout = -1; std::string in, out; std::string name; };
extern bool listening;                      // does the controller accept connections?
extern std::function<bool(const char *)> sockFault;
extern Sock *logSock, *cmdSock;
void ctlSend(std::string const &bytes);     // controller -> service, on the command connection
void ctlClose();                            // the controller goes away
extern bool signalKilled; extern int signalNo;
void deliverSignal(int sig);                // to the service process; runs in a task of its own

// ---- stdin -------------------------------------------------------------------------
void stdinSetup();
void stdinType(std::string const &);
void stdinClose();

// ---- the process --------------------------------------------------------------------
extern bool ended; extern int exitStatus; extern uint64_t endedAt;
void startProcess(std::vector<std::string> const &args);
bool waitEnd(uint64_t us);                  // false: still running
}  // namespace svc
