// The part of the CMS 1.x / ActiveMQ-CPP 3.x programming interface a client sees, as abstract classes with the
// signatures of the real headers. The broker behind it is simulated (../broker.cpp).
#pragma once
#include <exception>
#include <map>
#include <string>
#include <vector>

namespace cms {
class CMSException : public std::exception {
protected:
  std::string msg;
public:
  CMSException(const std::string &m = "") : msg(m) {}
  virtual ~CMSException() throw() {}
  virtual std::string getMessage() const { return msg; }
  virtual const std::exception *getCause() const { return nullptr; }
  virtual const char *what() const throw() { return msg.c_str(); }
  virtual std::string getStackTraceString() const { return ""; }
  virtual void printStackTrace() const {}
};
#define CMS_EXC(n) class n : public CMSException { public: n(const std::string &m = "") : CMSException(m) {} };
CMS_EXC(IllegalStateException) CMS_EXC(InvalidDestinationException) CMS_EXC(InvalidSelectorException) CMS_EXC(MessageEOFException)
CMS_EXC(MessageFormatException) CMS_EXC(MessageNotReadableException) CMS_EXC(MessageNotWriteableException) CMS_EXC(UnsupportedOperationException)
#undef CMS_EXC

class Startable { public: virtual ~Startable() {} virtual void start() = 0; };
class Stoppable { public: virtual ~Stoppable() {} virtual void stop() = 0; };
class Closeable { public: virtual ~Closeable() {} virtual void close() = 0; };

class DeliveryMode { public: enum DELIVERY_MODE { PERSISTENT = 0, NON_PERSISTENT = 1 }; virtual ~DeliveryMode() {} };

class Destination {
public:
  enum DestinationType { TOPIC, QUEUE, TEMPORARY_TOPIC, TEMPORARY_QUEUE };
  virtual ~Destination() {}
  virtual DestinationType getDestinationType() const = 0;
  virtual Destination *clone() const = 0;
  virtual void copy(const Destination &) = 0;
  virtual bool equals(const Destination &) const = 0;
};
class Queue : public Destination { public: virtual std::string getQueueName() const = 0; };
class TemporaryQueue : public Destination { public: virtual std::string getQueueName() const = 0; virtual void destroy() = 0; };
class Topic : public Destination { public: virtual std::string getTopicName() const = 0; };

class Message {
public:
  virtual ~Message() {}
  virtual Message *clone() const = 0;
  virtual void acknowledge() const = 0;
  virtual void clearBody() = 0;
  virtual void clearProperties() = 0;
  virtual std::vector<std::string> getPropertyNames() const = 0;
  virtual bool propertyExists(const std::string &) const = 0;
  virtual bool getBooleanProperty(const std::string &) const = 0;
  virtual double getDoubleProperty(const std::string &) const = 0;
  virtual int getIntProperty(const std::string &) const = 0;
  virtual long long getLongProperty(const std::string &) const = 0;
  virtual std::string getStringProperty(const std::string &) const = 0;
  virtual void setBooleanProperty(const std::string &, bool) = 0;
  virtual void setDoubleProperty(const std::string &, double) = 0;
  virtual void setIntProperty(const std::string &, int) = 0;
  virtual void setLongProperty(const std::string &, long long) = 0;
  virtual void setStringProperty(const std::string &, const std::string &) = 0;
  virtual std::string getCMSCorrelationID() const = 0;
  virtual void setCMSCorrelationID(const std::string &) = 0;
  virtual int getCMSDeliveryMode() const = 0;
  virtual const Destination *getCMSDestination() const = 0;
  virtual long long getCMSExpiration() const = 0;
  virtual std::string getCMSMessageID() const = 0;
  virtual int getCMSPriority() const = 0;
  virtual bool getCMSRedelivered() const = 0;
  virtual const Destination *getCMSReplyTo() const = 0;
  virtual void setCMSReplyTo(const Destination *) = 0;
  virtual long long getCMSTimestamp() const = 0;
  virtual std::string getCMSType() const = 0;
  virtual void setCMSType(const std::string &) = 0;
};
class TextMessage : public Message {
public:
  virtual std::string getText() const = 0;
  virtual void setText(const char *) = 0;
  virtual void setText(const std::string &) = 0;
};
class BytesMessage : public Message { public: virtual int getBodyLength() const = 0; };

class MessageListener { public: virtual ~MessageListener() {} virtual void onMessage(const Message *) = 0; };
class ExceptionListener { public: virtual ~ExceptionListener() {} virtual void onException(const CMSException &) = 0; };

class MessageConsumer : public Closeable, public Startable, public Stoppable {
public:
  virtual Message *receive() = 0;
  virtual Message *receive(int millisecs) = 0;
  virtual Message *receiveNoWait() = 0;
  virtual void setMessageListener(MessageListener *) = 0;
  virtual MessageListener *getMessageListener() const = 0;
  virtual std::string getMessageSelector() const = 0;
};
class MessageProducer : public Closeable {
public:
  virtual void send(Message *) = 0;
  virtual void send(Message *, int deliveryMode, int priority, long long timeToLive) = 0;
  virtual void send(const Destination *, Message *) = 0;
  virtual void send(const Destination *, Message *, int deliveryMode, int priority, long long timeToLive) = 0;
  virtual void setDeliveryMode(int) = 0;
  virtual int getDeliveryMode() const = 0;
  virtual void setDisableMessageID(bool) = 0;
  virtual bool getDisableMessageID() const = 0;
  virtual void setPriority(int) = 0;
  virtual int getPriority() const = 0;
  virtual void setTimeToLive(long long) = 0;
  virtual long long getTimeToLive() const = 0;
};
class Session : public Closeable, public Startable, public Stoppable {
public:
  enum AcknowledgeMode { AUTO_ACKNOWLEDGE, DUPS_OK_ACKNOWLEDGE, CLIENT_ACKNOWLEDGE, SESSION_TRANSACTED, INDIVIDUAL_ACKNOWLEDGE };
  virtual void commit() = 0;
  virtual void rollback() = 0;
  virtual void recover() = 0;
  virtual MessageConsumer *createConsumer(const Destination *) = 0;
  virtual MessageConsumer *createConsumer(const Destination *, const std::string &selector) = 0;
  virtual MessageConsumer *createConsumer(const Destination *, const std::string &selector, bool noLocal) = 0;
  virtual MessageProducer *createProducer(const Destination * = nullptr) = 0;
  virtual Queue *createQueue(const std::string &) = 0;
  virtual TextMessage *createTextMessage() = 0;
  virtual TextMessage *createTextMessage(const std::string &) = 0;
  virtual AcknowledgeMode getAcknowledgeMode() const = 0;
  virtual bool isTransacted() const = 0;
};
class ConnectionMetaData;
class Connection : public Startable, public Stoppable, public Closeable {
public:
  virtual ~Connection() {}
  virtual Session *createSession() = 0;
  virtual Session *createSession(Session::AcknowledgeMode) = 0;
  virtual std::string getClientID() const = 0;
  virtual void setClientID(const std::string &) = 0;
  virtual ExceptionListener *getExceptionListener() const = 0;
  virtual void setExceptionListener(ExceptionListener *) = 0;
};
class ConnectionFactory {
public:
  virtual ~ConnectionFactory() {}
  virtual Connection *createConnection() = 0;
  virtual Connection *createConnection(const std::string &user, const std::string &pw) = 0;
  virtual Connection *createConnection(const std::string &user, const std::string &pw, const std::string &id) = 0;
  static ConnectionFactory *createCMSConnectionFactory(const std::string &brokerURI);
};
}  // namespace cms

namespace activemq {
namespace exceptions {
class ActiveMQException : public cms::CMSException { public: ActiveMQException(const std::string &m = "") : cms::CMSException(m) {} };
}
namespace transport {
class TransportListener {
public:
  virtual ~TransportListener() {}
  virtual void onException(const cms::CMSException &) {}
  virtual void transportInterrupted() = 0;
  virtual void transportResumed() = 0;
};
class DefaultTransportListener {
public:
  virtual ~DefaultTransportListener() {}
  virtual void transportInterrupted() {}
  virtual void transportResumed() {}
};
}
namespace core {
class ActiveMQConnection : public cms::Connection {
public:
  virtual void addTransportListener(transport::DefaultTransportListener *) = 0;
  virtual void removeTransportListener(transport::DefaultTransportListener *) = 0;
};
class ActiveMQConnectionFactory : public cms::ConnectionFactory {
public:
  virtual std::string getBrokerURL() const = 0;
  virtual void setBrokerURL(const std::string &) = 0;
  virtual std::string getUsername() const = 0;
  virtual void setUsername(const std::string &) = 0;
  virtual std::string getPassword() const = 0;
  virtual void setPassword(const std::string &) = 0;
};
class ActiveMQProducer : public cms::MessageProducer { public: virtual void setSendTimeout(long long) = 0; virtual long long getSendTimeout() const = 0; };
class ActiveMQConsumer : public cms::MessageConsumer {};
class ActiveMQConstants {};
}
namespace library {
class ActiveMQCPP { public: static void initializeLibrary(); static void initializeLibrary(int, char **) { initializeLibrary(); } static void shutdownLibrary(); };
}
}  // namespace activemq
