// Probe plugins: real plugins that write down, in one line each, what the
// system does with them. One O_APPEND write per line: the order of lines is the
// order of events, across threads and across the copies of this code.
#ifndef VF_PROBE_H
#define VF_PROBE_H

#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>

#include <lamppost/exceptions/OperationFailedException.h>
#include <lamppost/messages/Message.h>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/plugin/PluginTemplateInfo.h>

namespace
{
  inline std::string hex(const std::string& s)
  {
    static const char* digits = "0123456789abcdef";
    std::string r;
    for(unsigned char c : s) { r += digits[c >> 4]; r += digits[c & 15]; }
    return r.empty() ? "-" : r;
  }

  void writeEvent(const std::string& file, const std::string& who, const std::string& what, const std::string& extra)
  {
    const char* path = file.empty() ? getenv("VF_EVENTS") : file.c_str();
    if(path == nullptr) return;
    std::string line = hex(who) + " " + what + " " + std::to_string((long)syscall(SYS_gettid)) + " " + extra + "\n";
    int fd = open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    if(fd < 0) return;
    ssize_t n = write(fd, line.data(), line.size());
    (void)n;
    close(fd);
  }

  // What a probe that asks waits for: all others are there.
  inline bool gateOpen()
  {
    const char* path = getenv("VF_GATE");
    return path == nullptr || access(path, F_OK) == 0;
  }

  class Probe : public lp::PluginInstance
  {
    std::string mFile;          // where to write events; the environment says where if empty
    std::string mGate;          // half of the messages are said once this file is there
    void event(const std::string& who, const std::string& what, const std::string& extra = "-")
    {
      writeEvent(mFile, who, what, extra);
    }

    std::string mOffer;
    std::shared_ptr<lp::bus::ActionProvider> mProvider;
    std::map<std::string, std::shared_ptr<lp::bus::ActionConsumer>> mConsumers;
    std::atomic<int> mAnswers{0};
    std::string mBehaviour;
    int mMessages;
    int mChatter;
    int mSentOnInit;
    bool mHeard = false;
    std::shared_ptr<lp::bus::Publisher> mPublisher;
    std::shared_ptr<lp::bus::Subscriber> mSubscriber;

    void Say(int n)
    {
      lp::messages::Datagram d;
      d["from"] = GetIdentifier();
      d["n"] = n;
      event(GetIdentifier(), "publish-begin", std::to_string(n));
      mPublisher->Publish(d);
      event(GetIdentifier(), "publish-end", std::to_string(n));
    }

  public:
    Probe(lp::PluginConfiguration configuration)
      : lp::PluginInstance(configuration), mMessages(0), mChatter(0), mSentOnInit(0)
    {
      std::shared_ptr<lp::data::RawBytes> bytes = lp::messages::Message("", "", configuration.mCustomConfiguration).SerializeToBytes();
      std::string config(static_cast<const char*>(bytes->GetContent()), bytes->GetSize());
      mFile = GetCustomConfiguration().Get<std::string>("events", "");
      mGate = GetCustomConfiguration().Get<std::string>("gate", "");
      std::string bus = configuration.mBus == nullptr ? "" : configuration.mBus->GetIdentifier();
      event(GetIdentifier(), "create", hex(configuration.mIdentifier) + " " + hex(bus) + " " + hex(config));
      mBehaviour = GetCustomConfiguration().Get<std::string>("behave", "loop");
      mMessages = GetCustomConfiguration().Get<int>("messages", 0);
      mChatter = GetCustomConfiguration().Get<int>("chatter", 0);
      mOffer = GetCustomConfiguration().Get<std::string>("offer", "");
    }

    ~Probe() override
    {
      event(GetIdentifier(), "destroy");
    }

    void Initialize() override
    {
      event(GetIdentifier(), "init-begin");
      if(mBehaviour == "fail-init")
      {
        event(GetIdentifier(), "init-failed");
        throw lp::exceptions::OperationFailedException("refused by the plugin");
      }
      mPublisher = GetPublisher("/probe/talk");
      mSubscriber = GetSubscriber("/probe/talk");
      mSubscriber->SetMessageCallback(
        [this](lp::messages::Message message)
        {
          lp::messages::Datagram d = message.GetDatagram();
          event(GetIdentifier(), "handle-begin", hex(message.GetSender()) + " " + hex(d.Get<std::string>("from")) + " " + std::to_string(d.Get<int>("n", -1)));
          if(mBehaviour == "hold-hear") for(int i = 0; i < 100000 && access(mGate.c_str(), F_OK) != 0; ++i) usleep(500);
          if(mBehaviour == "slow-hear" && !mHeard) { mHeard = true; usleep(250000); }
          event(GetIdentifier(), "handle-end");
        });
      if(!mOffer.empty())
        mProvider = GetActionProvider("/ask/" + mOffer,
          [this](std::shared_ptr<lp::bus::ActionProvider> provider, std::string invocation, lp::messages::Datagram wrapped)
          {
            lp::messages::Datagram request = wrapped["request"], answer;
            answer["by"] = GetIdentifier();
            answer["n"] = request.Get<int>("n", -1);
            answer["asked-by"] = request.Get<std::string>("from");
            event(GetIdentifier(), "asked", hex(request.Get<std::string>("from")) + " " + std::to_string(request.Get<int>("n", -1)));
            provider->Respond(invocation, answer);
          });
      if(!mOffer.empty()) event(GetIdentifier(), "offers", hex(mOffer));
      for(int i = 0; i < GetCustomConfiguration().Get<int>("asks", 0); ++i)
      {
        std::string whom = GetCustomConfiguration().Get<std::string>("ask" + std::to_string(i), "");
        if(mConsumers.count(whom) == 0) mConsumers[whom] = GetActionConsumer("/ask/" + whom);
      }
      if(mBehaviour == "slow-init") usleep(20000);
      if(mBehaviour == "hold-init") for(int i = 0; i < 100000 && access(mGate.c_str(), F_OK) != 0; ++i) usleep(500);
      event(GetIdentifier(), "init-end");
    }

    void Run() override
    {
      event(GetIdentifier(), "run-begin");
      int sent = 0, said = 0, asks = GetCustomConfiguration().Get<int>("asks", 0);
      if(asks > 0)
      {
        while(mShouldRun && !gateOpen()) usleep(500);
        for(int i = 0; i < asks && mShouldRun; ++i)
        {
          std::string whom = GetCustomConfiguration().Get<std::string>("ask" + std::to_string(i), "");
          lp::messages::Datagram request;
          request["n"] = i;
          request["from"] = GetIdentifier();
          event(GetIdentifier(), "ask", std::to_string(i) + " " + hex(whom));
          auto answered = [this, i](lp::messages::Datagram d)
            {
              event(GetIdentifier(), "answer", std::to_string(i) + " " + hex(d.Get<std::string>("by")) + " " + std::to_string(d.Get<int>("n", -1)) + " " + hex(d.Get<std::string>("asked-by")));
              mAnswers++;
            };
          if(i % 3 == 0) mConsumers[whom]->RequestAsync(request, answered);
          else answered(mConsumers[whom]->Request(request, 20000));
        }
        while(mShouldRun && mAnswers < asks) usleep(500);
        event(GetIdentifier(), "asked-all");
      }
      while(mShouldRun && mBehaviour != "return" && mBehaviour != "quit")
      {
        if(sent < mMessages && (sent < mMessages / 2 || mGate.empty() || access(mGate.c_str(), F_OK) == 0)) Say(sent++);
        for(int i = 0; i < 20 && said < mChatter; ++i, ++said)
        {
          std::string text = "chatter " + std::to_string(said) + " " + std::string(10 + (size_t)(said * 7) % 90, 'a' + said % 26);
          if(said % 3 == 0) mLog.Info(text, said % 4);
          else if(said % 3 == 1) mLog.Warning(text);
          else mLog.Error(text, 1);
        }
        if(mBehaviour == "flood" && sent < mMessages) continue;
        if(said >= mChatter && sent >= mMessages) Sleep(std::chrono::milliseconds(1));
        else usleep(50);
      }
      if(mBehaviour == "quit") mShouldRun = false;   // ends its own loop
      if(mChatter > 0) event(GetIdentifier(), "chattered", std::to_string(said));
      if(mBehaviour == "slow-stop") usleep(30000);
      if(mBehaviour == "last-words") for(int i = 0; i < 3; ++i) Say(1000000 + i);
      event(GetIdentifier(), "run-end", hex(mBehaviour));
    }

    void Deinitialize() override
    {
      event(GetIdentifier(), "deinit-begin");
      if(mBehaviour == "slow-deinit") usleep(20000);
      if(mPublisher != nullptr && mBehaviour == "last-words") Say(2000000);
      if(mBehaviour != "untidy")
      {
        DeleteSubscriber(mSubscriber);
        mSubscriber = nullptr;
        DeletePublisher(mPublisher);
        mPublisher = nullptr;
      }
      event(GetIdentifier(), "deinit-end");
    }
  };
}

#define VF_PROBE(id) \
  extern "C" \
  { \
    GENERATE_INSTANCE_CREATOR(Probe); \
    GENERATE_INFO_CREATOR(info, \
      info->mIdentifier = id; \
      info->mVersion = lp::Version(1, 2, 3, 4); \
    ) \
  }

#endif
