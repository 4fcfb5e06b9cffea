From 6471b587bab098947ca46dc7bdeadbf2370daa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 01/38] fix: keep empty lists and dictionaries when a message
 is deserialized

They came back as empty (null) datagrams.
---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..7c17aae 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -375,6 +375,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
+
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -385,6 +387,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
+
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
-- 
2.43.0


From 07d007dc20753d647d2f0a83528d158a7104213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 02/38] fix: keep empty arrays and objects when reading JSON

They were read as empty (null) datagrams.
---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 7c17aae..3522f5d 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -453,6 +453,8 @@ namespace lp
         {
           json_object* jarray = jobj, *jvalue;
 
+          *root = RawDatagram(RawDatagramType::List);
+
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
           {
             jvalue = json_object_array_get_idx(jarray, i);
@@ -465,6 +467,8 @@ namespace lp
 
         case json_type_object:
         {
+          *root = RawDatagram(RawDatagramType::Dictionary);
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From 3f2d856b4ceb42c8454a13a67f861c43e170e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 03/38] fix: do not cut JSON strings at an escaped NUL
 character

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 3522f5d..1bec34d 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -446,7 +446,7 @@ namespace lp
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
-- 
2.43.0


From 428b751b7a9dea234f0c30f929082618f5434c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 04/38] fix: release the JSON tokener and document after
 parsing

Every call leaked both.
---
 src/lamppost/messages/RawDatagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 1bec34d..7cb2653 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -423,6 +423,9 @@ namespace lp
         ParseJsonObject(jobj, rawDatagram);
       }
 
+      json_object_put(jobj);
+      json_tokener_free(tok);
+
       return rawDatagram;
     }
 
-- 
2.43.0


From 079cb9dc27be938a792e68e8557a387a2a4fe990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 05/38] fix: store string literals in datagrams as strings

Assigning a literal stored the boolean true, constructing from one stored a
bare pointer that no reader accepts.
---
 include/lamppost/messages/RawDatagram.h | 8 ++++++++
 src/lamppost/messages/RawDatagram.cpp   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index a70081d..e1fb0e4 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -72,6 +72,13 @@ namespace lp
         SetValue(contentValue);
       }
 
+      RawDatagram(const char* contentValue)
+        : mType(RawDatagramType::Value),
+          mValue(nullptr)
+      {
+        SetValue(std::string(contentValue));
+      }
+
       ~RawDatagram();
 
       RawDatagramType GetType();
@@ -95,6 +102,7 @@ namespace lp
 
       // Values
       RawDatagram& operator=(std::string value);
+      RawDatagram& operator=(const char* value);
       RawDatagram& operator=(int value);
       RawDatagram& operator=(double value);
       RawDatagram& operator=(bool value);
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 7cb2653..c71f77f 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -244,6 +244,13 @@ namespace lp
       return *this;
     }
 
+    RawDatagram& RawDatagram::operator=(const char* value)
+    {
+      SetValue(std::string(value));
+
+      return *this;
+    }
+
     RawDatagram& RawDatagram::operator=(const std::shared_ptr<DataBase>& data)
     {
       if(mType != RawDatagramType::Value)
-- 
2.43.0


From e77dba82690b2d22a420fb52d985175df85e467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 06/38] fix: forbid copying RawBytes

The implicit copy shared the content, which was then freed twice.
---
 include/lamppost/data/RawBytes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lamppost/data/RawBytes.h b/include/lamppost/data/RawBytes.h
index 9e6f7cb..e1e10e5 100644
--- a/include/lamppost/data/RawBytes.h
+++ b/include/lamppost/data/RawBytes.h
@@ -20,6 +20,8 @@ namespace lp
     public:
       RawBytes();
       RawBytes(void* content, std::size_t size);
+      RawBytes(const RawBytes&) = delete;
+      RawBytes& operator=(const RawBytes&) = delete;
       ~RawBytes();
 
       const void* GetContent();
-- 
2.43.0


From bc32ad330992bc7a8f306adc6f2f744455ed308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 07/38] fix: accept appending no bytes to RawBytes

Appending the content of an empty buffer passed a null pointer to memcpy.
---
 src/lamppost/data/RawBytes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamppost/data/RawBytes.cpp b/src/lamppost/data/RawBytes.cpp
index f63fb9e..bd319b6 100644
--- a/src/lamppost/data/RawBytes.cpp
+++ b/src/lamppost/data/RawBytes.cpp
@@ -43,6 +43,11 @@ namespace lp
 
     void RawBytes::Append(const void* data, std::size_t size)
     {
+      if(size == 0)
+      {
+        return;
+      }
+
       if(mContent == nullptr)
       {
         mContent = static_cast<void*>(new char[size]);
-- 
2.43.0


From f36af906ece65350d36bba725636e53fd489843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 08/38] fix: verify received bytes before reading a message
 from them

Truncated, damaged or incomplete buffers were read out of bounds.
---
 include/lamppost/messages/Message.h   |  2 ++
 src/lamppost/messages/Message.cpp     | 26 ++++++++++++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp | 10 +++++++---
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/messages/Message.h b/include/lamppost/messages/Message.h
index c1d89a9..a096242 100644
--- a/include/lamppost/messages/Message.h
+++ b/include/lamppost/messages/Message.h
@@ -9,6 +9,8 @@
 #include <flatbuffers/util.h>
 
 #include <lamppost/data/RawBytes.h>
+#include <lamppost/exceptions/ArgumentNullException.h>
+#include <lamppost/exceptions/OperationFailedException.h>
 #include <lamppost/messages/Datagram.h>
 #include <lamppost/schemas/FBMessage_generated.h>
 
diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..c9c4e5e 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -43,7 +43,33 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      if(bytesToDeserialize == nullptr || bytesToDeserialize->GetContent() == nullptr)
+      {
+        throw exceptions::ArgumentNullException("bytesToDeserialize", "There are no bytes to deserialize.");
+      }
+
+      std::size_t size = bytesToDeserialize->GetSize();
+      if(size >= FLATBUFFERS_MAX_BUFFER_SIZE)
+      {
+        throw exceptions::OperationFailedException("Message is too large.");
+      }
+
+      // Every table referred to takes up at least one 32 bit word, so a table
+      // count above this limit can only come from tables referred to repeatedly.
+      const flatbuffers::uoffset_t maximumDepth = 1024;
+      const flatbuffers::uoffset_t maximumTables = static_cast<flatbuffers::uoffset_t>(size / sizeof(flatbuffers::uoffset_t));
+
+      flatbuffers::Verifier verifier(static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), size, maximumDepth, maximumTables);
+      if(!schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::OperationFailedException("Bytes do not represent a valid message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::OperationFailedException("Message is incomplete.");
+      }
 
       return messages::Message(
         deserializedMessage->sender()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index c71f77f..6caa5ff 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -363,7 +363,7 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
-              rawDatagram->SetValue<std::string>(structure->string_content()->str());
+              rawDatagram->SetValue<std::string>(structure->string_content() != nullptr ? structure->string_content()->str() : "");
               break;
 
             case schemas::ValueType::ValueType_Double:
@@ -384,7 +384,7 @@ namespace lp
         {
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
 
-          unsigned int length = structure->list_content()->size();
+          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;
 
           for(unsigned int i = 0; i < length; ++i)
           {
@@ -396,7 +396,11 @@ namespace lp
         {
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
 
-          unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          unsigned int length = 0;
+          if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
+          {
+            length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          }
 
           for(unsigned int i = 0; i < length; ++i)
           {
-- 
2.43.0


From 0a26e850b2c7dd8b0ecbf8b4838cd93805f3fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 09/38] fix: guard a subscriber's callback

It can be set or reset while the bus is delivering to the subscriber.
---
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Subscriber.cpp   | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..7d86121 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -18,6 +19,7 @@ namespace lp
     class Subscriber : public BusParticipant
     {
     private:
+      std::mutex mCallbackMutex;
       MessageCallbackType mCallback;
 
     public:
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..5f20b7e 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,31 +25,39 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
-      mCallback = nullptr;
+      SetMessageCallback(nullptr);
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
-      mCallback = [callback](lp::messages::Message message)
+      SetMessageCallback(
+        [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
 
           // TODO(fairlight1337): Check value here.
           callback(datagram);
-        };
+        });
     }
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
-      mCallback = callback;
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
+      mCallback.swap(callback);
     }
 
 
-- 
2.43.0


From d635eb12f388af838f1ffde48b0317e8fa3b697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 10/38] fix: guard a publisher's publishing function

A publisher can be reset by its bus while another thread publishes with it.
---
 include/lamppost/bus/Publisher.h | 2 ++
 src/lamppost/bus/Publisher.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..fd60908 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     class Publisher : public BusParticipant
     {
     private:
+      std::recursive_mutex mPublishingMutex;
       DatagramCallbackType mPublishingFunction;
 
     public:
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..e49e6bc 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,6 +19,8 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
+      std::lock_guard<std::recursive_mutex> lock(mPublishingMutex);
+
       if(mPublishingFunction != nullptr)
       {
         mPublishingFunction(datagram);
@@ -27,6 +29,8 @@ namespace lp
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::recursive_mutex> lock(mPublishingMutex);
+
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0


From 5e96d9b1e28692f0cfd96be998144013b499069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 11/38] fix: guard the publishing function of a bus

Detaching or destroying a bus, and creating child busses, raced with threads
publishing on it.
---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 26 ++++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..911e293 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
       std::mutex mNotifierMutex;
+      std::recursive_mutex mPublishMessageMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..1390a27 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,16 +45,10 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      Detach();
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
-        for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
-        {
-          busPair.second->Stop();
-          busPair.second->Detach();
-        }
-
         mChildBusses.clear();
       }
     }
@@ -72,7 +66,13 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::function<void(messages::Message)> publishMessageFunction;
+      {
+        std::lock_guard<std::recursive_mutex> publishLock(mPublishMessageMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, publishMessageFunction);
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -98,6 +98,9 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
+      // Held while publishing, so that nothing is in flight any more once this bus is detached.
+      std::lock_guard<std::recursive_mutex> lock(mPublishMessageMutex);
+
       if(mPublishMessageFunction != nullptr)
       {
         mPublishMessageFunction(message);
@@ -205,8 +208,11 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      {
+        std::lock_guard<std::recursive_mutex> lock(mPublishMessageMutex);
+        mPublishMessageFunction = nullptr;
+      }
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From 8c4711003749d22360a226ebbcf6ef64c052465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 12/38] fix: reset the participants of a bus that is destroyed

Publishers that outlived their bus used it after it was freed, and action
providers and consumers were never freed because they and their subscribers
referred to each other.
---
 include/lamppost/bus/Bus.h | 12 ++++++++++++
 src/lamppost/bus/Bus.cpp   |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 911e293..dfaec7f 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -88,6 +88,18 @@ namespace lp
         return std::find(container.begin(), container.end(), instance) != container.end();
       }
 
+      template<class ClassType>
+      void ReleaseManagedResources(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container)
+      {
+        std::lock_guard<std::mutex> lock(mutex);
+        for(const std::shared_ptr<ClassType>& instance : container)
+        {
+          instance->Reset();
+        }
+
+        container.clear();
+      }
+
       bool TopicMatchesPattern(std::string pattern, std::string topic);
 
     public:
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 1390a27..bfa766a 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -51,6 +51,12 @@ namespace lp
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
         mChildBusses.clear();
       }
+
+      // Participants may outlive their bus and must neither reach back into it, nor hold on to each other.
+      ReleaseManagedResources(mPublishersMutex, mPublishers);
+      ReleaseManagedResources(mSubscribersMutex, mSubscribers);
+      ReleaseManagedResources(mActionProvidersMutex, mActionProviders);
+      ReleaseManagedResources(mActionConsumersMutex, mActionConsumers);
     }
 
     std::shared_ptr<Bus> Bus::CreateChildBus(std::string name)
-- 
2.43.0


From 0226adcccbf82ae25a0d9b6dd7a289b8b3c00a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 13/38] fix: accept deleting a participant that was never
 created

A plugin that is unloaded without having been initialized deletes null
publishers and subscribers.
---
 include/lamppost/bus/Bus.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index dfaec7f..f118265 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -76,6 +76,11 @@ namespace lp
       template<class ClassType>
       void DeleteManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
+        if(instance == nullptr)
+        {
+          return;
+        }
+
         std::lock_guard<std::mutex> lock(mutex);
         container.remove(instance);
         instance->Reset();
-- 
2.43.0


From e61163a7e24f31fa945ccc786b0a4e5db16409fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 14/38] fix: do not lose the wakeup of a bus that is about to
 wait

The condition was changed under another mutex than the one waited with, so a
message published at the wrong moment waited for the polling interval.
---
 include/lamppost/bus/Bus.h |  1 -
 src/lamppost/bus/Bus.cpp   | 29 +++++++++++++----------------
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f118265..b260000 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -43,7 +43,6 @@ namespace lp
       std::mutex mQueueMutex;
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
-      std::mutex mNotifierMutex;
       std::recursive_mutex mPublishMessageMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index bfa766a..f8610a3 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -145,26 +145,23 @@ namespace lp
 
     void Bus::Run()
     {
-      std::unique_lock<std::mutex> notifierLock(mNotifierMutex);
-
       while(mShouldRun)
       {
-        mNotifier.wait_for(notifierLock,
-                           std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
-                           [this]
-                           {
-                             std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
-                           });
-
-        if(!mShouldRun)
-        {
-          break;
-        }
-
         std::deque<messages::Message> queuedMessages;
         {
-          std::lock_guard<std::mutex> lock(mQueueMutex);
+          std::unique_lock<std::mutex> lock(mQueueMutex);
+          mNotifier.wait_for(lock,
+                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
+                             [this]
+                             {
+                               return !mQueuedMessages.empty() || !mShouldRun;
+                             });
+
+          if(!mShouldRun)
+          {
+            break;
+          }
+
           queuedMessages = mQueuedMessages;
 
           mQueuedMessages.clear();
-- 
2.43.0


From 9f7090d17747eaa9e5b0c375a6acdf0d77900d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 15/38] fix: do not lose a stop requested before the bus loop
 is entered

Starting set the run flag again, and the loop never ended.
---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index b260000..e945519 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -46,6 +46,7 @@ namespace lp
       std::recursive_mutex mPublishMessageMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
+      std::atomic<bool> mStopRequested;
       bool mIsRootBus;
 
       std::mutex mPublishersMutex;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index f8610a3..c340de3 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -8,6 +8,7 @@ namespace lp
     Bus::Bus(std::string name)
       : Identifiable(name),
         mShouldRun(false),
+        mStopRequested(false),
         mIsRootBus(true)
     {
       if(name.empty())
@@ -30,6 +31,7 @@ namespace lp
       : Identifiable(name),
         mPublishMessageFunction(publishMessageFunction),
         mShouldRun(false),
+        mStopRequested(false),
         mIsRootBus(false)
     {
       if(name.empty())
@@ -145,6 +147,12 @@ namespace lp
 
     void Bus::Run()
     {
+      // A stop that was requested before getting here must not be lost.
+      if(mStopRequested)
+      {
+        mShouldRun = false;
+      }
+
       while(mShouldRun)
       {
         std::deque<messages::Message> queuedMessages;
@@ -172,10 +180,13 @@ namespace lp
           Distribute(message);
         }
       }
+
+      mStopRequested = false;
     }
 
     void Bus::Stop()
     {
+      mStopRequested = true;
       mShouldRun = false;
     }
 
-- 
2.43.0


From 166b782a775e98c2b63ff90e224c47c5cd9ab2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 16/38] fix: ignore malformed action requests and responses

A message without a textual invocation id on the topic of an action threw out
of the bus loop and ended it.
---
 include/lamppost/bus/Bus.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index e945519..983aeb4 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -154,8 +154,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            // Anybody may publish on this topic; what is not a request is ignored.
+            std::string invocationId = datagram.Get<std::string>("invocationId");
+            if(invocationId.empty())
+            {
+              return;
+            }
 
             instance->ProcessRequest(invocationId, datagram);
           });
@@ -180,7 +184,13 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            // Anybody may publish on this topic; what is not a response is ignored.
+            std::string invocationId = datagram.Get<std::string>("invocationId");
+            if(invocationId.empty())
+            {
+              return;
+            }
+
             messages::Datagram response = datagram["response"];
 
             instance->ProcessResponse(invocationId, response);
-- 
2.43.0


From 146c261689fe326657eabaed2e30c1bfcbc1ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 17/38] fix: guard an action provider's callback

Processing a request raced with a reset, and called the callback after it.
---
 include/lamppost/bus/ActionProvider.h |  2 ++
 src/lamppost/bus/ActionProvider.cpp   | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/ActionProvider.h b/include/lamppost/bus/ActionProvider.h
index dbc01b8..44ef678 100644
--- a/include/lamppost/bus/ActionProvider.h
+++ b/include/lamppost/bus/ActionProvider.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -23,6 +24,7 @@ namespace lp
       std::shared_ptr<Subscriber> mRequestSubscriber;
       std::shared_ptr<Publisher> mResponsePublisher;
 
+      std::mutex mCallbackMutex;
       std::function<void(std::shared_ptr<ActionProvider>, std::string, lp::messages::Datagram)> mCallback;
 
     public:
diff --git a/src/lamppost/bus/ActionProvider.cpp b/src/lamppost/bus/ActionProvider.cpp
index 507f26f..72159f3 100644
--- a/src/lamppost/bus/ActionProvider.cpp
+++ b/src/lamppost/bus/ActionProvider.cpp
@@ -19,7 +19,10 @@ namespace lp
 
     void ActionProvider::Reset()
     {
-      mCallback = nullptr;
+      std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback;
+
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
+      mCallback.swap(callback);
     }
 
     void ActionProvider::Respond(std::string invocationId, messages::Datagram response)
@@ -33,7 +36,16 @@ namespace lp
 
     void ActionProvider::ProcessRequest(std::string invocationId, messages::Datagram request)
     {
-      mCallback(this->shared_from_this(), std::move(invocationId), request);
+      std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback;
+      {
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(this->shared_from_this(), std::move(invocationId), request);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From fb120a09f3db9972ace1e70e70782739dee3ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 18/38] fix: make an action consumer's open requests safe to
 use

The map of open requests was shared between requesting threads and the bus
without a lock, a response arriving while a blocking request timed out wrote
to its dead stack frame, and requests that timed out were kept forever.
---
 include/lamppost/bus/ActionConsumer.h |  3 +
 src/lamppost/bus/ActionConsumer.cpp   | 84 +++++++++++++++++++--------
 2 files changed, 62 insertions(+), 25 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..e83ca6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,8 +28,11 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
       ~ActionConsumer() = default;
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..71f69fa 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,56 +28,90 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, std::move(callback));
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = std::move(callback);
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
-
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      // Shared with the callback, which may be running when this call gives up waiting.
+      struct State
+      {
+        std::mutex mMutex;
+        std::condition_variable mResponded;
+        bool mHasResponse = false;
+        messages::Datagram mResponse;
+      };
+      std::shared_ptr<State> state = std::make_shared<State>();
 
-      RequestAsync(
+      std::string uuidString = SendRequest(
         request,
-        [&](messages::Datagram internalResponse)
+        [state](messages::Datagram response)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(state->mMutex);
+          state->mResponse = response;
+          state->mHasResponse = true;
+          state->mResponded.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> lock(state->mMutex);
+      bool hasResponse = state->mResponded.wait_for(
+        lock,
+        std::chrono::milliseconds(timeoutMs),
+        [&state]
+        {
+          return state->mHasResponse;
+        });
 
-      return response;
+      if(!hasResponse)
+      {
+        lock.unlock();
+        {
+          std::lock_guard<std::mutex> openRequestsLock(mOpenRequestsMutex);
+          mOpenRequests.erase(uuidString);
+        }
+        lock.lock();
+      }
+
+      return state->mResponse;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        std::map<std::string, std::function<void(messages::Datagram)>>::iterator it = mOpenRequests.find(invocationId);
+        if(it != mOpenRequests.end())
+        {
+          callback = std::move(it->second);
+          mOpenRequests.erase(it);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 7199403064302449f2e1706f667cb66699fa8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 19/38] fix: draw all bits of a UUID from the random device

All of them followed from a seed of 32 bits, so identifiers repeated after some
ten thousand of them.
---
 include/lamppost/utilities/Uuid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lamppost/utilities/Uuid.h b/include/lamppost/utilities/Uuid.h
index a84b584..e73b722 100644
--- a/include/lamppost/utilities/Uuid.h
+++ b/include/lamppost/utilities/Uuid.h
@@ -28,8 +28,7 @@ namespace lp
       {
         Uuid uuid;
 
-        std::mt19937 rng;
-        rng.seed(std::random_device()());
+        std::random_device rng;
         std::uniform_int_distribution<unsigned int> dist(1, -1);
 
         char buffer[128];
-- 
2.43.0


From b6113c2c4ab51efb1a82fd66c21617fea20cf48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 20/38] fix: report an instance as stopped once it has shut
 down

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From 4987fabc4dcf10de16abf926be935681bfd059d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 21/38] fix: keep the root bus until the instance is destroyed

A stop request arriving during or after the shutdown dereferenced null.
---
 src/lamppost/LampPost.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..919d8c0 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -42,7 +42,6 @@ namespace lp
     mPluginManager.UnloadTemplates();
 
     mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
-- 
2.43.0


From 0d3842587c8bc2cba83be34434ec9251b1d23747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 22/38] fix: do not log from the stop request

It is called from the signal handler, which may have interrupted the holder of
the log's mutex or of the allocator's lock: the process then hung.
---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 919d8c0..dc8a82a 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -144,7 +144,7 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
+    // Note: This is called from signal handlers, and must not take locks or allocate memory.
     mRootBus->Stop();
   }
 
-- 
2.43.0


From 6668cf169496b183eed4424ea1e090672441bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 23/38] fix: handle termination signals only while there is an
 instance to stop

The handlers were installed before the instance was created and used it after
it was destroyed at exit; either way the process crashed.
---
 src/main.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..fd14c8d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,4 +1,5 @@
 // System includes
+#include <atomic>
 #include <cstdlib>
 #include <iostream>
 
@@ -8,21 +9,22 @@
 
 
 // Globals
-std::shared_ptr<lp::LampPost> lamppost = nullptr;
+std::atomic<lp::LampPost*> lamppost(nullptr);
 
 
 void HandleShutdownSignal()
 {
-  lamppost->Stop();
+  lp::LampPost* instance = lamppost;
+  if(instance != nullptr)
+  {
+    instance->Stop();
+  }
 }
 
 
 // Main
 int main(int argc, char** argv)
 {
-  std::cout << "Hooking up system calls." << std::endl;
-  HookSystemSignals();
-
   std::cout << "Starting LampPost." << std::endl;
   lp::LampPostConfiguration configuration;
 
@@ -33,11 +35,15 @@ int main(int argc, char** argv)
     configuration.mConfigurationFiles.emplace_back(argv[1]);
   }
 
-  lamppost = std::make_shared<lp::LampPost>(configuration);
+  std::shared_ptr<lp::LampPost> instance = std::make_shared<lp::LampPost>(configuration);
+  lamppost = instance.get();
+
+  std::cout << "Hooking up system calls." << std::endl;
+  HookSystemSignals();
 
   try
   {
-    lamppost->Start();
+    instance->Start();
   }
   catch(std::runtime_error& exception)
   {
@@ -46,6 +52,8 @@ int main(int argc, char** argv)
     throw;
   }
 
+  lamppost = nullptr;
+
   std::cout << "Exiting gracefully." << std::endl;
 
   return EXIT_SUCCESS;
-- 
2.43.0


From ea9dea32c9b0c7073bb072f462fa75fbc748c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 24/38] fix: list directories only when directories are asked
 for

The filter tested the flag for files. As on Windows, a directory and its parent
are not among its contents.
---
 src/lamppost/Filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..d05f928 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,8 +106,8 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
-        if(filterIncludesDirectories && IsDirectory(fullPath)) {
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
+        if(filterIncludesDirectories && name != "." && name != ".." && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
       }
-- 
2.43.0


From 8ab780174655be5a6cd340c140506535e712b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 25/38] fix: return no path when the running executable cannot
 be determined

An uninitialized buffer was returned.
---
 src/lamppost/Filesystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index d05f928..13fa079 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -138,9 +138,8 @@ namespace lp
 
     if(bytes >= 0) {
       buffer[bytes] = '\0';
+      path = static_cast<char*>(buffer);
     }
-
-    path = static_cast<char*>(buffer);
 #endif
 
     return path;
-- 
2.43.0


From be25850ccea1734d4e9bb2d0695c5961539e52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 26/38] fix: compare search paths of different number

The comparison read past the end of the shorter list, and was not symmetric.
---
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..5e89f96 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        mTemplateSearchPaths == rhs.mTemplateSearchPaths;
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 5c82f4f2bc6824de19fc7f65f61778332a65438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 27/38] fix: take the configuration files into account when
 comparing configurations

---
 include/lamppost/LampPostConfiguration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..7dc402b 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,9 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return
+        mPluginManagerConfiguration == other.mPluginManagerConfiguration &&
+        mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
-- 
2.43.0


From ec07f4b250025408e635a91203a354d9b863c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 28/38] fix: write log lines in one piece

The end of the line was written separately, and lines of plugins and of the
host ran into each other.
---
 src/lamppost/log/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/log/Log.cpp b/src/lamppost/log/Log.cpp
index 95ca399..f9c9207 100644
--- a/src/lamppost/log/Log.cpp
+++ b/src/lamppost/log/Log.cpp
@@ -11,7 +11,8 @@ namespace lp
     {
       std::lock_guard<std::mutex> lock(sSynchronizationMutex);
 
-      std::cout << line << std::endl;
+      // In one piece: plugins carry their own copy of the mutex.
+      std::cout << (line + "\n") << std::flush;
     }
 
     void Log::Write(std::string prefix, std::string message, int indentationLevel, int /*color*/)
-- 
2.43.0


From 121cdfc7871f8ccaf3b96a5203403db4f3f15d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 29/38] fix: join the worker of a plugin that ended its loop
 itself

Its thread was destroyed while joinable, which terminates the process.
---
 src/lamppost/plugin/PluginInstance.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..13879b3 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -42,14 +42,11 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From 14dcf8ccc197ae7c0c6054b40094943a5da9b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 30/38] fix: tolerate plugin libraries that create no info or
 no instance

---
 src/lamppost/plugin/PluginManager.cpp  |  2 +-
 src/lamppost/plugin/PluginTemplate.cpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..863fc40 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..84bc878 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -42,7 +42,10 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Stop();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Stop();
+      }
     }
   }
 
@@ -50,7 +53,10 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Deinitialize();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Deinitialize();
+      }
     }
 
     mInstances.clear();
-- 
2.43.0


From 244e226c51f45ed4fb6a941f4c77f3f1d17dd679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 31/38] fix: skip instance identifiers that are taken on the
 parent bus

The eleventh instance of a template 'X' and the first of a template 'X1' got the
same identifier, and the resulting exception ended the application.
---
 src/lamppost/plugin/PluginTemplate.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index 84bc878..003fa29 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -25,13 +25,26 @@ namespace lp
   {
     int index = 0;
 
-    while(IndexedInstanceExists(index))
+    configuration.mBus = nullptr;
+    while(configuration.mBus == nullptr)
     {
-      index++;
-    }
+      while(IndexedInstanceExists(index))
+      {
+        index++;
+      }
 
-    configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
-    configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+      configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
+
+      try
+      {
+        configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+      }
+      catch(exceptions::DuplicateKeyException&)
+      {
+        // Taken by an instance of another template whose identifier ends in a digit.
+        index++;
+      }
+    }
 
     mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
 
-- 
2.43.0


From 7c5032fdbd7c5561899de893b4232c6618cfc6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 32/38] fix: skip malformed plugin entries of configuration
 files

A list of plugins that is no list, or a plugin type that is no string, threw out
of the start of the application.
---
 src/lamppost/LampPost.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index dc8a82a..4968408 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -71,7 +71,11 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() != messages::RawDatagramType::List)
+    {
+      mLog.Error("Error while processing configuration file: 'plugins' is not a list.");
+    }
+    else if(config.KeyExists("plugins"))
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -82,10 +86,9 @@ namespace lp
 
       for(int i = 0; i < pluginsCount; ++i)
       {
-        if(config["plugins"][i].KeyExists("type"))
+        std::string pluginType = config["plugins"][i].Get<std::string>("type");
+        if(!pluginType.empty())
         {
-          std::string pluginType = config["plugins"][i]["type"];
-
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
 
-- 
2.43.0


From 198fa30057dc8a36b98b42be0174018f550eaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 33/38] fix: bound the time a link's sockets linger

With messages queued for a peer that does not read them, terminating the
context waited forever, and so did the shutdown of the application.
---
 src/plugins/link/Link.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..06e3400 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -105,6 +105,12 @@ namespace lp
       {
         mLog.Error("Failed to create ZMQ socket: " + std::string(zmq_strerror(zmq_errno())));
       }
+      else
+      {
+        // Do not wait for peers that stopped reading when the context is terminated.
+        int lingerMs = 1000;
+        zmq_setsockopt(socket, ZMQ_LINGER, &lingerMs, sizeof(lingerMs));
+      }
 
       return socket;
     }
-- 
2.43.0


From cd0cfd46db57ebe38bd40096a4b9f14b25f6171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 34/38] fix: drop undecodable messages received by a link

They ended the process.
---
 src/plugins/link/Link.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 06e3400..51b010e 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -239,8 +239,16 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+
+            successfullyReceivedMessage = true;
+          }
+          catch(exceptions::Exception& exception)
+          {
+            mLog.Warning("Dropping a received message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 6cc67a9e2f0778a1b1e7f8524e2414f8209e6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 35/38] fix: let SysInfo accept messages that are no strings

They threw out of the bus loop and ended it.
---
 src/plugins/sysinfo/SysInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..ef3c5c6 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,7 +21,7 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
+          std::string message = datagram.Get<std::string>("");
           mLog.Info("Got it: " + message);
         });
 
-- 
2.43.0


From aefa490238b24840c7b3369eb4be5b1c3ba1e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 36/38] fix: keep the code of plugin libraries that are still
 referred to

---
 src/lamppost/plugin/PluginManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 863fc40..442b6f1 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -45,7 +45,8 @@ namespace lp
 #if defined(_WIN32) || defined(_WIN64)
     return LoadLibrary(path.c_str());
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
-    return dlopen(path.c_str(), RTLD_NOW);
+    // What a plugin leaves behind (bus participants, queued messages) refers to its code and may outlive it.
+    return dlopen(path.c_str(), RTLD_NOW | RTLD_NODELETE);
 #endif
   }
 
-- 
2.43.0


From 20efd08027f342ccfd62e332db5ed688f65b0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 37/38] fix: a consumer that is released gives up the callbacks
 of its open requests

---
 src/lamppost/bus/ActionConsumer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 71f69fa..615ad42 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -17,6 +17,11 @@ namespace lp
 
     void ActionConsumer::Reset()
     {
+      // Released after the lock: what the callbacks hold may be this consumer's last users.
+      std::map<std::string, std::function<void(messages::Datagram)>> openRequests;
+
+      std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+      mOpenRequests.swap(openRequests);
     }
 
     void ActionConsumer::RequestAsync(
-- 
2.43.0


From 1d6a637db7bfe38441be8ae03b341b64a1f39cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:31 +0000
Subject: [PATCH 38/38] fix: find out the program's path and working directory
 when they are longer than 1023 characters

---
 include/lamppost/Filesystem.h |  2 ++
 src/lamppost/Filesystem.cpp   | 31 ++++++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/lamppost/Filesystem.h b/include/lamppost/Filesystem.h
index 4e31cc9..ed111b4 100644
--- a/include/lamppost/Filesystem.h
+++ b/include/lamppost/Filesystem.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <list>
 #include <string>
+#include <vector>
 
 #include <string.h>
 
@@ -18,6 +19,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 #include <dirent.h>
+#include <errno.h>
 #include <stdio.h>
 #endif
 
diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 13fa079..3570bde 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -122,10 +122,11 @@ namespace lp
   std::string Filesystem::GetPathOfRunningExecutable()
   {
     std::string path;
+
+#if defined(_WIN32) || defined(_WIN64)
     char buffer[1024];
     int bufferLength = sizeof(buffer);
 
-#if defined(_WIN32) || defined(_WIN64)
     DWORD bytes = GetModuleFileName(nullptr, buffer, (DWORD)bufferLength);
 
     if(bytes > 0)
@@ -134,11 +135,18 @@ namespace lp
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
     std::string procExePath = "/proc/" + std::to_string(getpid()) + "/exe";
-    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);
+    std::vector<char> buffer(1024);
+    ssize_t bytes = readlink(procExePath.c_str(), buffer.data(), buffer.size());
+
+    // What fills the whole buffer may have been cut off.
+    while(bytes == static_cast<ssize_t>(buffer.size()))
+    {
+      buffer.resize(buffer.size() * 2);
+      bytes = readlink(procExePath.c_str(), buffer.data(), buffer.size());
+    }
 
     if(bytes >= 0) {
-      buffer[bytes] = '\0';
-      path = static_cast<char*>(buffer);
+      path = std::string(buffer.data(), bytes);
     }
 #endif
 
@@ -149,10 +157,10 @@ namespace lp
   {
     std::string path;
 
+#if defined(_WIN32) || defined(_WIN64)
     char buffer[1024];
     int bufferLength = sizeof(buffer);
 
-#if defined(_WIN32) || defined(_WIN64)
     DWORD result = GetCurrentDirectory((DWORD)bufferLength, buffer);
 
     if(result > 0)
@@ -160,8 +168,17 @@ namespace lp
       path = static_cast<char*>(buffer);
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
-    if(getcwd(static_cast<char*>(buffer), bufferLength) != nullptr) {
-      path = static_cast<char*>(buffer);
+    std::vector<char> buffer(1024);
+    char* result = getcwd(buffer.data(), buffer.size());
+
+    while(result == nullptr && errno == ERANGE)
+    {
+      buffer.resize(buffer.size() * 2);
+      result = getcwd(buffer.data(), buffer.size());
+    }
+
+    if(result != nullptr) {
+      path = result;
     }
 #endif
 
-- 
2.43.0

