From fe5aa32f0e2ac70bfbed64b1dfc505f39d49dcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:34 +0000
Subject: [PATCH 01/64] fix: address and port bytes >= 0x80 are not
 sign-extended when a link address is decoded

---
 src/app/common/reactor/types/LinkAddr.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..9a1f7b4 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <string>
 
 namespace app::reactor
@@ -17,17 +18,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 9b6fd54270ef1efc3e4ecf83967bd7da2f8ee1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 02/64] fix: a message that does not fit its queue slot is
 refused, and a slot holds a message of the maximum size

---
 src/app/common/reactor/MsgMemStorage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..3685b73 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -6,7 +6,7 @@ namespace app::reactor
 {
 
 MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
-    : chunkSize(chunkSize_)
+    : chunkSize(chunkSize_ + sizeof(Item))
     , numChunks(numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
@@ -32,6 +32,10 @@ bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
     std::lock_guard<std::mutex> guard(mutex);
 
+    if (len > chunkSize - sizeof(Item))
+    {
+        return false;
+    }
     if (freeIds.empty())
     {
         return false;
-- 
2.43.0


From 7474739170a7ea3b74e22e0dcb5b36a73905e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 03/64] fix: an exception in one message handler does not
 strand the messages queued behind it

---
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..446447e 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -153,7 +153,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch(const std::exception& e)
+            {
+                std::cerr << e.what() << std::endl;
+            }
         }
         else
         {
-- 
2.43.0


From 34f1114aa93da9d75b229759a0c8a653c47aa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 04/64] fix: an exception in one descriptor's handler does not
 drop the other events of the batch

---
 src/app/common/reactor/Epoll.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..3d7cd7c 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch(const std::exception& e)
+        {
+            std::cerr << e.what() << std::endl;
+        }
     }
 }
 
-- 
2.43.0


From fd9b3e9220e183f0332b23cfaab9c5702e100a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 05/64] fix: a timer that can not be created releases its
 descriptor and its pool entry

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 446447e..04b0f8e 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From a8ad3d9cbb29426201c1cb13882c887a6a5f5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/64] fix: releasing an acceptor that failed to listen does
 not terminate the process

---
 src/app/common/reactor/Acceptor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..653f8b6 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -35,7 +35,10 @@ void Acceptor::setHandler(AcceptorHandler handler_)
 
 void Acceptor::release()
 {
-    close();
+    if (-1 != sfd)
+    {
+        close();
+    }
     setHandler({});
 }
 
-- 
2.43.0


From 1ed1cddb4f483e2ae44e3cda06bbaf5ac456d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/64] fix: a link whose accepted descriptor can not be
 watched does not keep the closed descriptor

---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..39d06aa 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -30,7 +30,7 @@ Link::~Link()
 
 void Link::setFileDescriptor(int val)
 {
-    if (-1 != fd)
+    if (-1 != fd && -1 != val)
     {
         throw std::runtime_error("already connected");
     }
-- 
2.43.0


From 207c25735e2fbc8e51110c9469d816bea8942cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 08/64] fix: a connection closed by the peer is reported as
 closed

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 39d06aa..79f9c81 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From d4fc0544d0c6ef2073c362890d84993aa9d47a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:22 +0000
Subject: [PATCH 09/64] fix: a frame the socket accepted only in part is
 reported as not sent

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 79f9c81..e84b57a 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    ssize_t const rc = ::write(fd, data, len);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (static_cast<std::size_t>(rc) != len)
+    {
+        LM(GEN, LE, "write incomplete: %zd of %zu", rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From a1abd688544e51b86ef5fb96277ca744f6d97f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 10/64] fix: a Modbus frame is complete only when its header
 and all announced bytes have arrived

---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..3a832ec 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduPktLen() + aduHdrLen;
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From e8f2bc16d783734450a430d93f9063de5f9258f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 11/64] fix: a decoded Modbus request does not keep the item
 and byte counts of the previous one

---
 src/app/modbus/ModbusCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 3a832ec..2ebd273 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -163,6 +163,8 @@ bool ModbusCodec::encode(AduRequest const& adu)
 
 bool ModbusCodec::decode(AduRequest& adu)
 {
+    adu.numItems = 0;
+    adu.numBytes = 0;
     adu.transactId = buf.readBe();
     if (modbusProtocolId != buf.readBe())
     {
-- 
2.43.0


From 90f59e0d3449b61bd52ea76982cf6cf0e9729373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 12/64] fix: the value of a single coil goes over the wire as
 FF00 or 0000

---
 src/app/modbus/ModbusCodec.cpp | 48 ++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 2ebd273..d41b650 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -121,8 +121,16 @@ bool ModbusCodec::encode(AduRequest const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -210,8 +218,16 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -305,8 +321,16 @@ bool ModbusCodec::encode(AduRespond const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -385,8 +409,16 @@ bool ModbusCodec::decode(AduRespond& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
-- 
2.43.0


From e9b23a915ad57140a586e5118025f8d499f723a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 13/64] fix: a Modbus exception response carries the function
 code of the request with the high bit set

---
 src/app/modbus/ModbusCodec.cpp                | 29 ++++++++++++-------
 src/app/modbus/ModbusCodec.hpp                |  1 +
 src/app/modbus/client/ModbusClient.cpp        | 14 ++++-----
 .../modbus/server/session/ModbusSession.cpp   |  2 +-
 4 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index d41b650..3eea2ea 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -264,18 +264,18 @@ bool ModbusCodec::decode(AduRequest& adu)
 
 bool ModbusCodec::encode(AduRespond const& adu)
 {
-    switch (adu.func)
-    {
-    case ModbusFunction::modbusError:
+    if (ModbusError::noerror != adu.error)
     {
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 1);
         buf.write(adu.addr);
-        buf.write(toUint8(adu.func));
+        buf.write(toUint8(adu.func) | exceptionFlag);
         buf.write(toUint8(adu.error));
+        return true;
     }
-    break;
+    switch (adu.func)
+    {
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
@@ -369,15 +369,22 @@ bool ModbusCodec::decode(AduRespond& adu)
     }
     uint16_t const pktLen = buf.readBe();
     adu.addr = buf.read();
-    adu.func = fromUint8<ModbusFunction>(buf.read());
-
-    switch (adu.func)
-    {
-    case ModbusFunction::modbusError:
+    adu.error = ModbusError::noerror;
+    unsigned const funcCode = buf.read();
+    adu.func = fromUint8<ModbusFunction>(funcCode & ~exceptionFlag);
+    if (funcCode & exceptionFlag)
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
+        return ModbusError::noerror != adu.error;
     }
-    break;
+
+    switch (adu.func)
+    {
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
diff --git a/src/app/modbus/ModbusCodec.hpp b/src/app/modbus/ModbusCodec.hpp
index c3583e9..e7bb160 100644
--- a/src/app/modbus/ModbusCodec.hpp
+++ b/src/app/modbus/ModbusCodec.hpp
@@ -39,6 +39,7 @@ private:
     static constexpr unsigned aduFuncCodeOffset = 7;
     static constexpr unsigned aduRspErrorCodeOffset = 8;
     static constexpr unsigned aduHdrLen = 6;
+    static constexpr unsigned exceptionFlag = 0x80;
 
     PduBuffer& buf;
 };
diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..3922a89 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -157,13 +157,6 @@ Status ModbusClient::receive()
         provideRspError(aduReq);
         return Status::done;
     }
-    if (ModbusFunction::modbusError == aduRsp.func)
-    {
-        LM(MODBUS, LW, "Client-%u, modbus error code (%s)"
-            , uid, toString(aduRsp.error));
-        provideRspModbusError(aduReq, aduRsp.error);
-        return Status::done;
-    }
     if (aduReq.func != aduRsp.func)
     {
         LM(MODBUS, LW, "Client-%u, unexpected function %s vs %s"
@@ -171,6 +164,13 @@ Status ModbusClient::receive()
         provideRspError(aduReq);
         return Status::done;
     }
+    if (ModbusError::noerror != aduRsp.error)
+    {
+        LM(MODBUS, LW, "Client-%u, modbus error code (%s)"
+            , uid, toString(aduRsp.error));
+        provideRspModbusError(aduReq, aduRsp.error);
+        return Status::done;
+    }
 
     reactor::MsgStore<MsgModbusClientAduRsp> msgStore;
     MsgModbusClientAduRsp& rsp = msgStore.getMsg();
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..7245b76 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -170,7 +170,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
 
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
-    aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
+    aduRsp.func = storedAdu.func;
     aduRsp.addr = storedAdu.addr;
     aduRsp.error = rsp.error;
     aduRsp.startItem = storedAdu.startItem;
-- 
2.43.0


From b7f00403751eb4e21f2e7e188ea13e981e314b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 14/64] fix: a Modbus request whose response announces an
 invalid length is answered with an error

---
 src/app/modbus/client/ModbusClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 3922a89..ecf0070 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -84,6 +84,7 @@ Status ModbusClient::receive()
     if (pduBuf.size() > maxAduLen)
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
+        provideRspTimeout();
         return Status::done;
     }
 
@@ -117,6 +118,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From a14a9271f37dd35b6c8739ff7166e4907bb8db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 15/64] fix: responses to Modbus transactions above 65535 are
 recognised

---
 src/app/modbus/client/ModbusClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index ecf0070..93b76d4 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -145,7 +145,7 @@ Status ModbusClient::receive()
         provideRspError(aduReq);
         return Status::done;
     }
-    if (aduReq.transactId != aduRsp.transactId)
+    if (static_cast<uint16_t>(aduReq.transactId) != aduRsp.transactId)
     {
         LM(MODBUS, LW, "Client-%u, unexpected transaction %u vs %u"
             , uid, aduReq.transactId, aduRsp.transactId);
@@ -177,7 +177,7 @@ Status ModbusClient::receive()
     reactor::MsgStore<MsgModbusClientAduRsp> msgStore;
     MsgModbusClientAduRsp& rsp = msgStore.getMsg();
     rsp.clientId = aduReq.clientId;
-    rsp.transactId = aduRsp.transactId;
+    rsp.transactId = aduReq.transactId;
     rsp.error = ModbusError::noerror;
     rsp.status = MsgStatus::success;
     rsp.numBytes = aduRsp.numBytes;
-- 
2.43.0


From fdb4dd38763c96ec3938d8a8c980ce9be978bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 16/64] fix: data that arrives while no Modbus response is
 awaited does not answer a request that was not sent

---
 src/app/modbus/client/ModbusClient.cpp          | 15 +++++++++++++++
 src/app/modbus/client/ModbusClient.hpp          |  2 ++
 src/app/modbus/client/ModbusClientConnected.cpp |  2 +-
 src/app/modbus/client/ModbusClientSend.cpp      |  2 +-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 93b76d4..3b70bae 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -187,6 +187,21 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::discard()
+{
+    PduBuffer buf;
+    auto const& result = link->receive(buf.end(), buf.capacity());
+    switch (result.status)
+    {
+    case reactor::LinkResult::closed:
+    case reactor::LinkResult::error:
+        return Status::error;
+    default:
+        LM(MODBUS, LW, "Client-%u, received data is unexpected", uid);
+        return Status::noerror;
+    }
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..b4bb010 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status discard();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..27d3d3d 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..23d5e23 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
-- 
2.43.0


From 2a97de1c31e060dc7ec1a3c86f5bea1bb745e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 17/64] fix: a late response to an earlier request does not end
 the wait for the current one

---
 src/app/modbus/server/session/ModbusSession.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 7245b76..27abb8e 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -159,7 +159,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
             , uid, storedAdu.transactId, rsp.transactId);
-        return Result::done;
+        return Result::noerror;
     }
 
     if (rsp.status != MsgStatus::success)
-- 
2.43.0


From 07de0baadc188de16e5b5f3e32f70e8c71bc59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 18/64] fix: a response with more data than a Modbus frame
 holds is refused

---
 src/app/modbus/server/session/ModbusSession.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 27abb8e..ae011f7 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -175,6 +175,11 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     aduRsp.error = rsp.error;
     aduRsp.startItem = storedAdu.startItem;
     aduRsp.numItems = storedAdu.numItems;
+    if (rsp.numBytes > sizeof(aduRsp.data))
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes: %u", uid, rsp.numBytes);
+        return Result::done;
+    }
     aduRsp.numBytes = rsp.numBytes;
     std::memcpy(aduRsp.data, rsp.data, rsp.numBytes);
 
-- 
2.43.0


From 39eee2cbe6948a1a005ae247a3a70251d4df0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 19/64] fix: a Modbus connection that can not be accepted gives
 its session back

---
 src/app/modbus/server/ModbusServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..46a503a 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -52,8 +52,16 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+    }
+    catch (...)
+    {
+        session.releaseSession();
+        throw;
+    }
     session.start();
 }
 
-- 
2.43.0


From 3d5c16e71085ece79d7af9b88567ad79416bf9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 20/64] fix: a response for a Modbus session that does not
 exist is dropped

---
 src/app/modbus/server/ModbusServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index 46a503a..9fc7e21 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,11 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, Invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
-- 
2.43.0


From 7ab80ca095208ac671c7d82acb7ce16ee831ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:54 +0000
Subject: [PATCH 21/64] fix: a Modbus session that received a malformed request
 does not wait for a response to it

---
 src/app/modbus/server/session/ModbusSession.cpp          | 4 ++--
 src/app/modbus/server/session/ModbusSessionConnected.cpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index ae011f7..78c780d 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -124,7 +124,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::codecError;
     }
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
@@ -133,7 +133,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::codecError;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..b7259d7 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -28,6 +28,11 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
         fsm.transit<ModbusSessionWaitModbusAduRsp>();
     }
     break;
+    case Result::codecError:
+    {
+        fsm.getEntity().receivePreaction();
+    }
+    break;
     case Result::noerror:
     {
     }
-- 
2.43.0


From 337124e34a352f70f1ecfc441ac98a477dc5fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 22/64] fix: reading past the received bytes or writing past
 the end of an OPC UA buffer is refused

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..d8d430b 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= packet.size())
+    {
+        throw std::length_error("OPC UA buffer is full");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::out_of_range("OPC UA buffer has no more data");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
-- 
2.43.0


From b143c122c347b79fc9732c151fbbe1863c5bc370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 23/64] fix: OPC UA string and array lengths are checked
 against the received data before allocating

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 35 +++++++++++--------
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  6 ++--
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..1fe108e 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -25,6 +26,21 @@ std::uint8_t OpcUaBinaryCodec::read()
     return buffer.read();
 }
 
+std::size_t OpcUaBinaryCodec::readLength()
+{
+    Int32 len;
+    *this >> len;
+    if (len == -1)
+    {
+        return 0;
+    }
+    if (len < 0 || len > buffer.end() - buffer.begin())
+    {
+        throw std::length_error("OPC UA length exceeds the received data");
+    }
+    return static_cast<std::size_t>(len);
+}
+
 OpcUaSduBuffer& OpcUaBinaryCodec::buf()
 {
     return buffer;
@@ -253,14 +269,9 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Double const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        return s;
-    }
+    std::size_t const len = s.readLength();
     val.resize(len);
-    for (std::int32_t i = 0; i < len; ++i)
+    for (std::size_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
     }
@@ -320,15 +331,9 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Guid const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        val.clear();
-        return s;
-    }
+    std::size_t const len = s.readLength();
     val.resize(len);
-    for (std::int32_t i = 0; i < len; ++i)
+    for (std::size_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
     }
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..4e6a194 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -69,6 +69,8 @@ public:
 
     std::uint8_t read();
 
+    std::size_t readLength();
+
     OpcUaSduBuffer& buf();
 
     OpcUaSduBuffer const& buf() const;
@@ -239,9 +241,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, StaticArray<T, SIZE> const& ar
 template <typename T>
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
-    Int32 arrayLength;
-    s >> arrayLength;
-    arr.resize(arrayLength);
+    arr.resize(s.readLength());
     for (auto& it : arr)
     {
         s >> it;
-- 
2.43.0


From 2cecb35aa9011db0e9e60de9f0a07fd509b779f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 24/64] fix: unsupported OPC UA encodings are refused with an
 exception instead of terminating or being half decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 1fe108e..c8b0f2b 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -403,7 +403,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("unsupported OPC UA NodeId encoding");
     }
     return s;
 }
@@ -449,7 +449,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("OPC UA NodeId has no value");
     }
     return s;
 }
@@ -640,7 +640,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExtensionObject& data)
     break;
     default:
         LM(GEN, LE, "Unexpected, %u", (int)encodingMask);
-        break;
+        throw std::runtime_error("unsupported OPC UA ExtensionObject body encoding");
     }
     return s;
 }
@@ -777,7 +777,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("unsupported OPC UA Variant array type");
         }
         return s;
     }
@@ -895,11 +895,8 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<ExtensionObject>();
         }
         break;
-        case DataTypeId::DataValue:
-        case DataTypeId::Variant:
-        case DataTypeId::DiagnosticInfo:
-            LM(GEN, LE, "Unexpected");
-        break;
+        default:
+            throw std::runtime_error("unsupported OPC UA Variant type");
         };
     }
     return s;
-- 
2.43.0


From a32bfc3e77d0979d73fb91dc5bdf02a510f0d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 25/64] fix: an OPC UA Variant array of any supported element
 type can be decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 75 +++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index c8b0f2b..25f3ff7 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -776,6 +776,81 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::XmlElement:
+        {
+            s >> variant.emplace<DynamicArray<XmlElement>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("unsupported OPC UA Variant array type");
         }
-- 
2.43.0


From 4307c5f1d77e8bcf7463c5625f70cee26aa37625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 26/64] fix: the array dimensions of an OPC UA Variant are
 encoded, decoded and compared

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 12 ++++++++++++
 src/app/common/ua/common/types/Variant.hpp    |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 25f3ff7..1c5c06f 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -854,10 +854,18 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         default:
             throw std::runtime_error("unsupported OPC UA Variant array type");
         }
+        if (encodingMask & 0x40)
+        {
+            s >> variant.arrayDimensions;
+        }
         return s;
     }
     else
     {
+        if (encodingMask & 0x40)
+        {
+            throw std::runtime_error("OPC UA Variant scalar with array dimensions");
+        }
         switch (typeId)
         {
         case DataTypeId::Boolean:
@@ -989,6 +997,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Variant const& variant)
     {
         s << arg;
     }, *variant.value);
+    if (encodingMask & 0x40)
+    {
+        s << variant.arrayDimensions;
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..7130ee5 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,14 +92,19 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
     {
         // see type Value
         auto toDataTypeId = [](auto val) { return val < 22 ? val + 1 : ((val - 21) | 0x80); };
-        return value ? toDataTypeId(value->index()) : 0;
+        if (not value)
+        {
+            return 0;
+        }
+        std::uint8_t const mask = toDataTypeId(value->index());
+        return (mask & 0x80) && arrayDimensions ? mask | 0x40 : mask;
     }
     template <typename T, typename...ARGS>
     T& emplace(ARGS...args)
-- 
2.43.0


From 69e17dc6d067d7ac210e914611dbe099a5134b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 27/64] fix: the flags of an OPC UA ExpandedNodeId are set in
 its own encoding byte

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 1c5c06f..66da81b 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -609,7 +609,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From 74945086bc5d3cc3438e4ecbaee2a0327d9f4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:36 +0000
Subject: [PATCH 28/64] fix: the OPC UA DataValue mask uses 0x08 for the server
 timestamp and 0x10 for the source picoseconds

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 8 ++++----
 src/app/common/ua/common/types/DataValue.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 66da81b..0fb2838 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -682,11 +682,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
     {
         s >> data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s >> data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s >> data.serverTimeStampt;
     }
@@ -713,11 +713,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
     {
         s << data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s << data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s << data.serverTimeStampt;
     }
diff --git a/src/app/common/ua/common/types/DataValue.hpp b/src/app/common/ua/common/types/DataValue.hpp
index 3e42eb2..66e73cb 100644
--- a/src/app/common/ua/common/types/DataValue.hpp
+++ b/src/app/common/ua/common/types/DataValue.hpp
@@ -31,8 +31,8 @@ struct DataValue : public StructType<DataTypeId::DataValue>
               value.value
             , status
             , sourceTimestampt
-            , sourcePicoSeconds
             , serverTimeStampt
+            , sourcePicoSeconds
             , serverPicoSeconds
         );
     }
-- 
2.43.0


From 404a587c37f8ce6b1daa375ce5bfafbe8a7a244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:19 +0000
Subject: [PATCH 29/64] fix: the end of a full OPC UA buffer is computed
 without indexing past its storage

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d8d430b..cfbdc3a 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -40,22 +40,22 @@ std::uint8_t OpcUaSduBuffer::read()
 
 std::uint8_t const* OpcUaSduBuffer::begin() const
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::begin()
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::end()
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint8_t const* OpcUaSduBuffer::end() const
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint32_t OpcUaSduBuffer::size() const
-- 
2.43.0


From b0bda05d5a571f6130bfa99887d601629ccc63fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:34:59 +0000
Subject: [PATCH 30/64] fix: the size of an OPC UA buffer is the number of
 bytes not read yet, as its users assume

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index cfbdc3a..abf08a6 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -60,7 +60,7 @@ std::uint8_t const* OpcUaSduBuffer::end() const
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
-- 
2.43.0


From 68505c3fbe987516d512800509f493b164c6fb41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:34:59 +0000
Subject: [PATCH 31/64] fix: a received OPC UA message that does not fit an
 internal message is refused, one of 1 kB or more may arrive in pieces

---
 .../ua/transport/server/UaTcpConnection.cpp   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..0734ea0 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -8,6 +8,14 @@
 namespace app::ua::transport
 {
 
+namespace
+{
+// the payload has to fit into one message to the secure channel
+constexpr std::uint32_t maxReceivedMessageSize = reactor::maxMsgSize - sizeof(MsgUaSecuredMessageReceiveInd);
+static_assert(sizeof(MsgUaOpenSecureChannelReq) <= sizeof(MsgUaSecuredMessageReceiveInd));
+static_assert(sizeof(MsgUaCloseSecureChannelReq) <= sizeof(MsgUaSecuredMessageReceiveInd));
+}
+
 UaTcpConnection::UaTcpConnection(EntityId uid_, reactor::ReactorInterface& r, ReleaserInterface& releaser_)
     : FsmBase(&app::getSingleton<UaTcpConnectionInit>(), "UaTcpConnection")
     , connectionId(uid_)
@@ -175,13 +183,6 @@ void UaTcpConnection::receivePreaction()
 
 UaTcpConnection::Result UaTcpConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
-    {
-        LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
-        return Result::error;
-    }
-
     auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
     switch (result.status)
     {
@@ -201,6 +202,12 @@ UaTcpConnection::Result UaTcpConnection::receive()
         return Result::noerror;
     }
 
+    if (getMsgSizeFromHdr(rxBuffer.begin()) > maxReceivedMessageSize)
+    {
+        LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+        return Result::error;
+    }
+
     if (rxBuffer.size() < getMsgSizeFromHdr(rxBuffer.begin()))
     {
         return Result::noerror;
-- 
2.43.0


From a09baadc944623c342c6c2fb90a93d37b8fe1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 32/64] fix: an OPC UA connection is not opened by a first
 message that is not a Hello

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 0734ea0..6186d24 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -234,13 +234,12 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
+
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
-- 
2.43.0


From 6273bf4d0c2c18e2038980943576c8206bd8b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 33/64] fix: an OPC UA connection that receives a malformed
 message is closed instead of being left half read

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 6186d24..19380ea 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -223,6 +223,7 @@ UaTcpConnection::Result UaTcpConnection::receive()
 }
 
 UaTcpConnection::Result UaTcpConnection::receiveHello()
+try
 {
     switch (receive())
     {
@@ -250,6 +251,11 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
 
     return sendAcknowledge();
 }
+catch (std::exception const& e)
+{
+    LM(UATL, LE, "Uid-%u, malformed packet: %s", connectionId, e.what());
+    return Result::error;
+}
 
 UaTcpConnection::Result UaTcpConnection::sendAcknowledge()
 {
@@ -285,6 +291,7 @@ UaTcpConnection::Result UaTcpConnection::sendAcknowledge()
 }
 
 UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
+try
 {
     switch (receive())
     {
@@ -360,5 +367,10 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     }
     return UaTcpConnection::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UATL, LE, "Uid-%u, malformed packet: %s", connectionId, e.what());
+    return Result::error;
+}
 
 } // namespace app::ua::transport
-- 
2.43.0


From dde0624be70362bd2248154185ba8ad2f41d7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 34/64] fix: an OPC UA connection that can not be set up is
 given back to the pool

---
 src/app/ua/transport/server/UaTcpServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 926c0d9..f871f15 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -64,7 +64,15 @@ void UaTcpServer::onAcceptEvent()
         return;
     }
     auto& connection = connectionPool.get(connectionId);
-    connection.getState().onAcceptLink(connection, link);
+    try
+    {
+        connection.getState().onAcceptLink(connection, link);
+    }
+    catch (...)
+    {
+        connection.release();
+        throw;
+    }
 }
 
 } // namespace app::ua::transport
-- 
2.43.0


From 9209a0a2d1245a31abe06d07c7def6892566bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 35/64] fix: an OPC UA session, channel or connection number
 that does not exist is refused

---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From 6b2ba74cdbb578a3be1ba3db4f245f61053bbfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:24 +0000
Subject: [PATCH 36/64] fix: a malformed message on an OPC UA secure channel
 closes the channel instead of leaking it

---
 .../channel/UaServerSecureChannel.cpp          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..86cc690 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -37,6 +37,7 @@ void UaServerSecureChannel::sendUaConnectionReleaseReq(UaConnectionId connection
 }
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChannelReq const& msgReq)
+try
 {
     OpcUaSduBuffer rx;
     std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
@@ -88,8 +89,14 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChan
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, malformed message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaCloseSecureChannelReq const& msgReq)
+try
 {
     if (not connectionId || *connectionId != msgReq.connectionId)
     {
@@ -153,6 +160,11 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaCloseSecureCha
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, malformed message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaAssociateSecureChannelReq const& msgReq)
 {
@@ -167,6 +179,7 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaAssociateSecur
 }
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessageReceiveInd const& msgReq)
+try
 {
     if (not connectionId || *connectionId != msgReq.connectionId)
     {
@@ -211,6 +224,11 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessage
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UASC, LE, "Uid-%u, malformed message: %s", secureChannelId, e.what());
+    return Result::error;
+}
 
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessageSendReq const& msgReq)
 {
-- 
2.43.0


From dc8d2690fdb1ca1bf716ab7921772e6cfb60193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 37/64] fix: a message too long for an OPC UA secure channel is
 refused

---
 .../securechannel/channel/UaServerSecureChannel.cpp   | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 86cc690..6b84336 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -8,6 +8,12 @@
 namespace app::ua::securechannel
 {
 
+namespace
+{
+// together with the token (4 bytes) and sequence (8 bytes) headers it has to fit into one message to the transport
+constexpr std::uint32_t maxSentMessageSize = reactor::maxMsgSize - sizeof(MsgUaSecuredMessageSendReq) - 12;
+}
+
 UaServerSecureChannel::UaServerSecureChannel(EntityId uid_, reactor::ReactorInterface& reactor_, ReleaserInterface& releaser_)
     : FsmBase(&app::getSingleton<UaServerSecureChannelInit>(), "UaServerSecureChannel")
     , secureChannelId(uid_)
@@ -242,6 +248,11 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
         LM(UASC, LE, "Uid-%u, unexpected sessionId", secureChannelId);
         return Result::error;
     }
+    if (msgReq.length > maxSentMessageSize)
+    {
+        LM(UASC, LE, "Uid-%u, message is too long", secureChannelId);
+        return Result::error;
+    }
 
     OpcUaSduBuffer tx;
 
-- 
2.43.0


From 04299f873a39a8b6a5e24ca9ed0c8710760041a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 38/64] fix: requests for unknown OPC UA services do not take
 up memory

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..a71a8ed 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const serv = services.find(static_cast<DataTypeId>(serviceId));
+    if (serv == services.end())
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    serv->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 15222907c16ae11e7ad4f976978b3c35bbb6fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 39/64] fix: a message of one OPC UA connection does not close
 the secure channel of another

---
 .../channel/UaServerSecureChannel.cpp         |  5 +++++
 .../channel/UaServerSecureChannel.hpp         |  1 +
 .../UaServerSecureChannelEstablished.cpp      | 19 ++++++++++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 6b84336..f2a04c0 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -26,6 +26,11 @@ UaServerSecureChannel::~UaServerSecureChannel()
 {
 }
 
+bool UaServerSecureChannel::isOwnedBy(UaConnectionId id) const
+{
+    return connectionId && *connectionId == id;
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 0;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..725b4b4 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isOwnedBy(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..7dfc1aa 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,6 +7,12 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
+    if (not fsm.isOwnedBy(msg.connectionId))
+    {
+        LM(UASC, LE, "Unexpected connectionId");
+        fsm.sendUaConnectionReleaseReq(msg.connectionId);
+        return;
+    }
     fsm.receive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
@@ -17,8 +23,13 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isOwnedBy(msg.connectionId))
+    {
+        LM(UASC, LE, "Unexpected connectionId");
+        return;
+    }
     fsm.transit<UaServerSecureChannelInit>();
 }
 
@@ -29,6 +40,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
+    if (not fsm.isOwnedBy(msg.connectionId))
+    {
+        LM(UASC, LE, "Unexpected connectionId");
+        fsm.sendUaConnectionReleaseReq(msg.connectionId);
+        return;
+    }
     if (UaServerSecureChannel::Result::done != fsm.receive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
-- 
2.43.0


From fe90762b179a6fabf1a824fb7f3833d4ad0ff837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 40/64] fix: opening a second secure channel on an OPC UA
 connection releases the first one

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 19380ea..822bf71 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -75,6 +75,10 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
-- 
2.43.0


From b651ea4b77f40a7bbc6bb2467e4e392c7bd0ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 41/64] fix: a secure channel whose OPC UA connection ended
 while it was being opened is released

---
 src/app/ua/transport/server/UaTcpConnection.cpp          | 9 +++++++++
 src/app/ua/transport/server/UaTcpConnection.hpp          | 1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp      | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp      | 4 ++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.cpp  | 5 +++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.hpp  | 4 ++++
 6 files changed, 28 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 822bf71..9069037 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -41,6 +41,15 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
     Sender::sendMsg(msgStore);
 }
 
+void UaTcpConnection::rejectSecureChannel(MsgUaOpenSecureChannelRsp const& msg)
+{
+    LM(UATL, LE, "Uid-%u, the connection that opened a secure channel has ended", connectionId);
+    reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
+    msgStore.getMsg().connectionId = connectionId;
+    msgStore.getMsg().secureChannelId = msg.secureChannelId;
+    Sender::sendMsg(msgStore);
+}
+
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq const& msg)
 {
     if (not associatedSecureChannelId || *associatedSecureChannelId != msg.secureChannelId)
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..a6e8668 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -51,6 +51,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void rejectSecureChannel(MsgUaOpenSecureChannelRsp const&);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..c6901dd 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -10,6 +10,11 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
     fsm.release();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.rejectSecureChannel(msg);
+}
+
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
     fsm.acceptLink(link);
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..22b376d 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -8,12 +8,16 @@ namespace app::ua::transport
 class UaTcpConnectionInit : public UaTcpConnectionState
 {
 public:
+    using UaTcpConnectionState::onReceive;
+
     UaTcpConnectionInit() {}
 
     char const* name() const final { return "UaTcpConnectionInit"; }
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
 };
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..45d89cd 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -13,6 +13,11 @@ void UaTcpConnectionReceiveHello::onEnter(UaTcpConnection& fsm)
     fsm.receivePreaction();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.rejectSecureChannel(msg);
+}
+
 void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
 {
     switch (fsm.receiveHello())
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..59d1894 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -8,12 +8,16 @@ namespace app::ua::transport
 class UaTcpConnectionReceiveHello : public UaTcpConnectionState
 {
 public:
+    using UaTcpConnectionState::onReceive;
+
     UaTcpConnectionReceiveHello() {}
 
     char const* name() const final { return "UaTcpConnectionReceiveHello"; }
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onDataReceived(UaTcpConnection&) final;
 
     void onTimer(UaTcpConnection&) final;
-- 
2.43.0


From 9816299df18f10870a8ed1994e4afb69eb436024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:02 +0000
Subject: [PATCH 42/64] fix: a request with the number of a service in another
 namespace or beyond 16 bits is not taken for that service

---
 src/app/ua/service/UaService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index a71a8ed..d76f9a2 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -41,7 +41,7 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
     ExpandedNodeId eNodeId;
     codec >> eNodeId;
 
-    if (not std::holds_alternative<UInt32>(eNodeId.nodeId.value))
+    if (eNodeId.nodeId.namespaceIndex != 0 || not std::holds_alternative<UInt32>(eNodeId.nodeId.value))
     {
         LM(UASC, LE, "Unexpected eNodeId format");
         return;
@@ -50,7 +50,7 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
     auto const serv = services.find(static_cast<DataTypeId>(serviceId));
-    if (serv == services.end())
+    if (serv == services.end() || static_cast<UaServiceId>(serv->first) != serviceId)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
-- 
2.43.0


From b19d29aac58c40c1ea96b051c080ef15c1cf0f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:02 +0000
Subject: [PATCH 43/64] fix: an OPC UA session token of another namespace is
 not taken for a session of this server

---
 src/app/ua/service/session/UaSessionService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index b3432e9..dab29ef 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -44,7 +44,7 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionRe
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSessionReq const& msg)
 {
     auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
+    if (nodeId.namespaceIndex == 0 && std::holds_alternative<UInt32>(nodeId.value))
     {
         EntityId uid = (std::get<UInt32>(nodeId.value));
         auto& session = sessionPool.get(uid);
@@ -59,7 +59,7 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSession
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& msg)
 {
     auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
+    if (nodeId.namespaceIndex == 0 && std::holds_alternative<UInt32>(nodeId.value))
     {
         EntityId uid = (std::get<UInt32>(nodeId.value));
         auto& session = sessionPool.get(uid);
-- 
2.43.0


From f0e252d5cf5f06e25beacd85a92c5446e8c56e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 44/64] fix: an OPC UA message of 1 kB or more may arrive in
 pieces, one that does not fit the buffer is refused

---
 .../ua/protocols/connection/OpcUaConnection.cpp     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..2e3811e 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -70,13 +70,6 @@ void OpcUaConnection::receivePreaction()
 
 OpcUaConnection::Result OpcUaConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rx.size() > 1024)
-    {
-        LM(UA, LW, "Received packet is invalid");
-        return Result::error;
-    }
-
     auto const& result = link->receive(rx.end(), rx.capacity());
     switch (result.status)
     {
@@ -96,6 +89,12 @@ OpcUaConnection::Result OpcUaConnection::receive()
         return Result::noerror;
     }
 
+    if (getMsgSizeFromHdr(rx.begin()) > rx.size() + rx.capacity())
+    {
+        LM(UA, LW, "Received packet is too long");
+        return Result::error;
+    }
+
     if (rx.size() < getMsgSizeFromHdr(rx.begin()))
     {
         return Result::noerror;
-- 
2.43.0


From e85266f913d22dc9b8296422cfea5254ad33853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 45/64] fix: a malformed OPC UA Acknowledge or Hello ends the
 connection instead of leaving it half read

---
 .../common/ua/protocols/connection/ClientConnection.cpp   | 8 ++++++++
 .../common/ua/protocols/connection/ServerConnection.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..b113c72 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -5,6 +5,8 @@
 #include "ClientConnectionInit.hpp"
 #include "OpcUaProtocolDefs.hpp"
 
+#include <exception>
+
 namespace app::ua
 {
 
@@ -50,6 +52,7 @@ void ClientConnection::onTimerEvent()
 }
 
 OpcUaConnection::Result ClientConnection::receiveAck()
+try
 {
     switch (OpcUaConnection::receive())
     {
@@ -84,6 +87,11 @@ OpcUaConnection::Result ClientConnection::receiveAck()
 
     return OpcUaConnection::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LW, "ClientConnection-0, malformed packet: %s", e.what());
+    return OpcUaConnection::Result::error;
+}
 
 ClientConnection::Result ClientConnection::sendHello()
 {
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..6ba78f0 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -6,6 +6,8 @@
 #include "ServerConnectionReceiveHello.hpp"
 #include "OpcUaProtocolDefs.hpp"
 
+#include <exception>
+
 namespace app::ua
 {
 
@@ -76,6 +78,7 @@ ServerConnection::Result ServerConnection::sendReverseHello()
 }
 
 OpcUaConnection::Result ServerConnection::receiveHello()
+try
 {
     switch (OpcUaConnection::receive())
     {
@@ -107,6 +110,11 @@ OpcUaConnection::Result ServerConnection::receiveHello()
 
     return OpcUaConnection::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LW, "ServerConnection-0, malformed packet: %s", e.what());
+    return OpcUaConnection::Result::error;
+}
 
 OpcUaConnection::Result ServerConnection::sendAcknowledge()
 {
-- 
2.43.0


From 36d34eb208edc4ec5a7fe9ccf13bb56a99802ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 46/64] fix: an OPC UA connection may be closed from its
 connected notification

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..bb2121b 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..fbf6b70 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From 118ac959060c9ec13f267d76d4f564904087e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 47/64] fix: an OPC UA connection that could not be set up is
 idle again

---
 .../connection/ClientConnectionConnecting.cpp      | 10 +++++++++-
 .../protocols/connection/ClientConnectionInit.cpp  | 12 ++++++++++--
 .../connection/ServerConnectionConnecting.cpp      | 10 +++++++++-
 .../protocols/connection/ServerConnectionInit.cpp  | 14 +++++++++++---
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..520ff04 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,7 +8,15 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
+    try
+    {
+        fsm.connectLink();
+    }
+    catch (...)
+    {
+        fsm.transit<ClientConnectionInit>();
+        throw;
+    }
     fsm.startTimer(ClientConnection::connectTimeout);
 }
 
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..bf4e057 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -13,8 +13,16 @@ void ClientConnectionInit::onEnter(ClientConnection& fsm)
 void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ClientConnectionConnecting>();
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..a293c11 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,7 +8,15 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
+    try
+    {
+        fsm.connectLink();
+    }
+    catch (...)
+    {
+        fsm.transit<ServerConnectionInit>();
+        throw;
+    }
     fsm.startTimer(ServerConnection::connectTimeout);
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..5b39f91 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -14,15 +14,23 @@ void ServerConnectionInit::onEnter(ServerConnection& fsm)
 void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (...)
+    {
+        fsm.releaseResources();
+        throw;
+    }
     fsm.transit<ServerConnectionConnecting>();
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 5e8f17e26dd398a93911ff0cd6ea3615cea2811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:13 +0000
Subject: [PATCH 48/64] fix: sending on an OPC UA connection that is not
 connected fails

---
 src/app/common/ua/protocols/connection/OpcUaConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index 2e3811e..746a1df 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -54,6 +54,11 @@ void OpcUaConnection::closeLink()
 
 OpcUaConnection::Result OpcUaConnection::send(OpcUaSduBuffer const& tx)
 {
+    if (not link)
+    {
+        LM(UA, LI, "not connected");
+        return Result::error;
+    }
     int rc = link->send(tx.begin(), tx.size());
     if (rc <= 0)
     {
-- 
2.43.0


From e14a06b526069441a65c8f045082219e551bb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:27 +0000
Subject: [PATCH 49/64] fix: a stop of the controller that was not started does
 nothing

---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From cef24b92ee7960c16251c2cb7810ff02c28cd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:27 +0000
Subject: [PATCH 50/64] fix: OPC UA secure channel and service responses go to
 the controller

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From 2f06c0642ea109258db1faee9e60b9b0e3a6861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:07 +0000
Subject: [PATCH 51/64] fix: a stop while Modbus is being configured releases
 it

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From 07bea41e8d603a8b04d469837510f0383efcc323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:13 +0000
Subject: [PATCH 52/64] fix: Modbus requests outside of the test data are
 answered with an exception

---
 .../controller/modbus/ModbusTestController.cpp   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..fa2c32d 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -341,6 +341,22 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    bool const isRead = req.func == ModbusFunction::readHoldingRegisters || req.func == ModbusFunction::readInputRegisters;
+    std::size_t const end = req.startItem * 2u + (isRead ? req.numItems * 2u : req.numBytes);
+    if (req.transactId >= testCases.size() || end > testCases[req.transactId].rsp.data.size())
+    {
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
-- 
2.43.0


From b42e0d2451e4d4d31c6123bd986286c2b9eac527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:53 +0000
Subject: [PATCH 53/64] fix: sending on a connection the peer has closed does
 not end the process

---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index e84b57a..59ef4c8 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,7 +104,7 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    ssize_t const rc = ::write(fd, data, len);
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
     if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
-- 
2.43.0


From 814658d513f612eaa5241b5eceeabe465ad0bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:06 +0000
Subject: [PATCH 54/64] fix: a reactor that was never started can be destroyed

---
 src/app/common/reactor/Thread.cpp | 7 +++++++
 src/app/common/reactor/Thread.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..682f5fc 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , started(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -39,6 +40,11 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
+    if (not started)
+    {
+        return;
+    }
+
     result = pthread_join(tid, nullptr);
     if (result != 0)
     {
@@ -60,6 +66,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..f6ac731 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -22,6 +22,7 @@ private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
     pthread_t tid;
+    bool started;
     pthread_attr_t attr;
 };
 
-- 
2.43.0


From dc07636bd0fceb758c4b9d264f8360961a7f659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:06 +0000
Subject: [PATCH 55/64] fix: no event reaches a component after its reactor has
 been stopped

---
 src/app/common/reactor/Reactor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 04b0f8e..928b02b 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -136,6 +136,8 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    event->send();
+    threads.clear();
 }
 
 void Reactor::onFdEvent(uint64_t val)
-- 
2.43.0


From e4211b28e8968eb1d8f17801c9bea71089c96cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:06 +0000
Subject: [PATCH 56/64] fix: reactors that could not all be started are stopped
 before they are destroyed

---
 src/app/common/reactor/ReactorManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..ce494f9 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -18,6 +18,10 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    for (auto& reactor : reactors)
+    {
+        reactor->stop();
+    }
 }
 
 void ReactorManager::send(MsgInterface const& msg)
-- 
2.43.0


From e455eea08acefbe75cbfc0c94bccc834619f9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:14 +0000
Subject: [PATCH 57/64] fix: a server can listen again at once on the address
 of an earlier one

---
 src/app/common/reactor/Acceptor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 653f8b6..351f335 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -53,6 +53,13 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    int const reuse = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &reuse, sizeof(reuse)))
+    {
+        ::close(sfd);
+        sfd = -1;
+        throw std::runtime_error("setsockopt");
+    }
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From b125154ff2c5c93a19e47ef4f9aa2a2d6b0434d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:41 +0000
Subject: [PATCH 58/64] fix: an open response of the secure channel library has
 the handle of its request

---
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp | 2 ++
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..f123e94 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -99,6 +99,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq
     UaOpenSecureChannelReqCont req;
     codec >> req;
 
+    storedRequestHandle = req.msg.requestHdr.requestHandle;
     storedRequestedLifetime = req.msg.requestLifetime;
 
     return Result::done;
@@ -226,6 +227,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::sendOpenSecureChannelRsp()
 
     UaOpenSecureChannelRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
+    rsp.msg.responseHdr.requestHandle = storedRequestHandle;
     rsp.msg.serverProtocolVer = opcUaProtocolVersion;
     rsp.msg.securityToken.secureChannelId = secureChannelId;
     rsp.msg.securityToken.tokenId = tokenId;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
index c56c24a..fc4b1a2 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
@@ -57,6 +57,7 @@ private:
     std::uint32_t sequenceNumberTx{1};
     std::uint32_t storedRxSequenceNumber;
     std::uint32_t storedRequestId;
+    std::uint32_t storedRequestHandle;
     std::uint32_t storedRequestedLifetime;
     std::uint32_t tokenId;
 };
-- 
2.43.0


From be0b4172ccca1b9e4830cd20e42a7135a34fd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:42 +0000
Subject: [PATCH 59/64] fix: a message that is too long does not overflow the
 buffer of the secure channel library

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index f123e94..5545551 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -181,10 +181,17 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     codec << secHdr;
 
     UaSequenceHeader seqHdr;
-    seqHdr.sequenceNumber = sequenceNumberTx++;
+    seqHdr.sequenceNumber = sequenceNumberTx;
     seqHdr.requestId = storedRequestId;
     codec << seqHdr;
 
+    if (buf.size() > tx.capacity())
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, message is too long, size(%u)", buf.size());
+        return;
+    }
+    ++sequenceNumberTx;
+
     std::memcpy(tx.end(), buf.begin(), buf.size());
     tx.seek(buf.size());
 
-- 
2.43.0


From 6a12865f99b50c0224fd7981ed836c96503e769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:42 +0000
Subject: [PATCH 60/64] fix: a malformed message ends a channel of the secure
 channel library

---
 .../secure/OpcUaServerSecureChannel.cpp        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 5545551..3c42d9b 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -81,6 +81,7 @@ void OpcUaServerSecureChannel::closeConnection()
 }
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -104,8 +105,14 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq
 
     return Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, malformed packet: %s", e.what());
+    return Result::error;
+}
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -132,8 +139,14 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelRe
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, malformed packet: %s", e.what());
+    return Result::error;
+}
 
 OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
+try
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -162,6 +175,11 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaServerSecureChannel-0, malformed packet: %s", e.what());
+    return Result::error;
+}
 
 void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
 {
-- 
2.43.0


From a49b07aab9312a469719d1eb82eb7625b26bc88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 61/64] fix: the client of the secure channel library
 understands open responses

---
 src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index 30f7f99..a18ebbc 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -108,7 +108,7 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::receiveOpenSecureChannelRsp
     UaSequenceHeader seqHdr;
     codec >> seqHdr;
 
-    UaOpenSecureChannelRsp rsp;
+    UaOpenSecureChannelRspCont rsp;
     codec >> rsp;
 
     return OpcUaSecureChannel::Result::done;
-- 
2.43.0


From 3eda7ffc2e10184a097077f0f44753e44e8468c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 62/64] fix: a client channel lost while it is being opened can
 be opened again

---
 .../protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index 3a2fdf4..dd198e8 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -29,11 +29,13 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
 void OpcUaClientSecureChannelReceiveOpenRsp::onClosed(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyClosed();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 void OpcUaClientSecureChannelReceiveOpenRsp::onError(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyError();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 } // namespace app::ua
-- 
2.43.0


From a51e811a0b597c493796ea251a3aeb98bb1bd0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 63/64] fix: a client channel that is answered with something
 else than an open response is closed

---
 .../ua/protocols/secure/OpcUaClientSecureChannel.cpp  | 11 +++++++++++
 .../ua/protocols/secure/OpcUaClientSecureChannel.hpp  |  1 +
 .../secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index a18ebbc..a5206d5 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -60,6 +60,11 @@ void OpcUaClientSecureChannel::connectLink(reactor::LinkAddr& addr)
     connection.connect(addr);
 }
 
+void OpcUaClientSecureChannel::closeConnection()
+{
+    connection.close();
+}
+
 OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 {
     OpcUaSduBuffer tx;
@@ -91,6 +96,7 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 }
 
 OpcUaSecureChannel::Result OpcUaClientSecureChannel::receiveOpenSecureChannelRsp()
+try
 {
     if (not isOpnMsg(connection.getRxBuffer().begin()))
     {
@@ -113,5 +119,10 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::receiveOpenSecureChannelRsp
 
     return OpcUaSecureChannel::Result::done;
 }
+catch (std::exception const& e)
+{
+    LM(UA, LE, "OpcUaClientSecureChannel-0, malformed packet: %s", e.what());
+    return Result::error;
+}
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
index 822ed7e..99fe44c 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
@@ -44,6 +44,7 @@ private:
     void onConnectionClosedEvent() final;
 
     void connectLink(reactor::LinkAddr&);
+    void closeConnection();
     Result sendOpenSecureChannelReq();
     Result receiveOpenSecureChannelRsp();
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index dd198e8..4ede73a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -20,6 +20,7 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
     case OpcUaSecureChannel::Result::error:
     {
         fsm.notifyError();
+        fsm.closeConnection();
         fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
-- 
2.43.0


From 4f859fedd0c6271c7d91b176d020d46c387bcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:17 +0000
Subject: [PATCH 64/64] fix: a Modbus client whose connection breaks connects
 again by itself

---
 src/app/modbus/client/ModbusClientConnected.cpp | 6 ++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 6 ++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 6 ++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 24 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 27d3d3d..5770923 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -32,4 +32,10 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..82bc233 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,12 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 23d5e23..76dec68 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -36,6 +36,12 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0

