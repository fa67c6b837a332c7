From 1090e24e0157932dfbe78848dd566f1eaf97c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 01/32] fix: keep failing connection processes from running the
 server's clean up

An exception in the process forked to handle a connection (or in the one forked to start the command) reached the
server's exception handler, which removes the client executables and the PID file of the running server.
---
 src/Main.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 4ea51b0..48922d9 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -652,7 +652,10 @@ static void mainServer(int argc, const char *argv[])
 					{
 						(void)close(listener.abandon());
 						signal(SIGCHLD, SIG_DFL);
-						k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client));
+
+						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
+						catch (...) { std::abort(); } // Cleaning up is left to the server process, which is still running
+
 						std::exit(0);
 					}
 
-- 
2.43.0


From 264286db762b3fcd74f6880445b575dfdb53fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 02/32] fix: stop the server on a signal while connections are
 active

The write end of the exit request pipe was inherited by the processes handling connections and their commands, so
closing it in the signal handler did not wake the server until every one of them had ended. Commands also inherited
both descriptors.
---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 48922d9..40ed46b 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -651,6 +651,8 @@ static void mainServer(int argc, const char *argv[])
 					if (child == 0)
 					{
 						(void)close(listener.abandon());
+						exitRequested.closeInput(); // The server waits for every copy of the input to be closed
+						exitRequested.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
-- 
2.43.0


From 9f8161e7d0e587f5a15f1fb4e5b4705b3ea30c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 03/32] fix: skip the data of stdin messages that arrive after
 stdin was closed

Only the header was consumed, so the data was interpreted as further messages.
---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 012137c..c80cef4 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -905,7 +905,10 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 							LOG_DEBUG << "Received stdin data (" << payloadValue << " bytes) from client";
 
 							if (stdInPipe.getInput() == Pipe::INVALID_HANDLE)
+							{
 								LOG_DEBUG << "Ignoring " << payloadValue << " received bytes due to closed stdin"; // Ignore data on stdin after close
+								(void)receiveSocket.readString(payloadValue);
+							}
 							else if (!payloadValue)
 								closeStdIn = true;
 							else
-- 
2.43.0


From f1a4ce666d741f8410ba8447da104d75c8cacccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 04/32] fix: do not poll stdin after the server asked to close
 it

The client kept polling the closed descriptor, which made poll() return immediately over and over again.
---
 src/Process.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index c80cef4..77dcadd 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -429,6 +429,9 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						LOG_DEBUG << "Received stdin close command from server";
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
+#ifndef _WIN32
+						pollSet[0].fd = -1; // The descriptor is closed, so ignore it from now on
+#endif
 					}
 
 					break;
-- 
2.43.0


From efa34b28f5c5f90c566c681819d7275e59453d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 05/32] fix: flush the output of a remote command as it is
 received

Data remained in the client's stdio buffer until the buffer was full or the stream was closed.
---
 src/Process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 77dcadd..ff2a419 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -247,7 +247,7 @@ static void outputStdStreamData(std::ostream &stream, FILE *file, const char *na
 		LOG_DEBUG << "Received " << name << " data (" << length << " bytes) from server";
 		std::string data = receiveSocket.readString(length);
 
-		if (!std::fwrite(data.data(), data.length(), 1, file))
+		if (!std::fwrite(data.data(), data.length(), 1, file) || std::fflush(file) != 0)
 			LOG_ERROR << "Failed to write " << name << " data";
 	}
 	else if (!stream.eof())
-- 
2.43.0


From 5bebed14f9ede400fc38b263a8d27ac61c5cf585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 06/32] fix: keep serving after a connection process could not
 be forked

A temporary failure of fork() ended the server.
---
 src/Main.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 40ed46b..14d6fcd 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -664,7 +664,7 @@ static void mainServer(int argc, const char *argv[])
 					(void)close(client.abandon());
 
 					if (child == -1)
-						LOG_ERROR << "Failed to fork client: " << errno;
+						LOG_WARNING << "Failed to fork client: " << errno; // Only this connection is lost
 #endif
 
 					connectionCount++;
-- 
2.43.0


From f890a934123b087a462eded1f0d995b06f56589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 07/32] fix: keep the descriptors of closed standard streams
 from being reused

---
 src/Main.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 14d6fcd..1abd261 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -221,6 +221,21 @@ static void mainClient(int argc, const char *argv[])
 #ifdef _WIN32
 static HANDLE exitRequested;
 #else
+// Makes sure that the descriptors of standard streams that are closed when the process starts are not reused for files, pipes, and sockets
+static struct StandardStreamReserver
+{
+	StandardStreamReserver()
+	{
+		int devNull;
+
+		do devNull = open("/dev/null", O_RDONLY, 0);
+		while (devNull >= 0 && devNull <= STDERR_FILENO);
+
+		if (devNull >= 0)
+			(void)close(devNull);
+	}
+} standardStreamReserver;
+
 static k8psh::Pipe exitRequested;
 #endif
 
-- 
2.43.0


From cfa81b4af3683598c86a2c6cc1db318401f40b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 08/32] fix: keep output and the exit code from being lost when
 stdin was not read completely

---
 src/Process.cxx |  2 ++
 src/Socket.cxx  | 14 ++++++++++++++
 src/Socket.hxx  |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index ff2a419..b12352b 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -997,6 +997,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			LOG_DEBUG << "Sending exit code (" << exitCode << ") to client";
 			socket.write({ std::uint8_t(EXIT_CODE), std::uint8_t(exitCode), std::uint8_t(exitCode >> 8), std::uint8_t(exitCode >> 16), std::uint8_t(exitCode >> 24) });
 		}
+
+		socket.finish();
 #endif
 
 terminateServer:
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 7ebf00a..91a4711 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -229,6 +229,20 @@ void k8psh::Socket::close()
 	}
 }
 
+// Finishes writing to the socket, and waits until the socket is closed by the other end so that no written data is lost.
+void k8psh::Socket::finish()
+{
+#ifndef _WIN32
+	char buffer[4096];
+	ssize_t received;
+
+	(void)shutdown(_handle, SHUT_WR);
+
+	do received = recv(_handle, buffer, sizeof(buffer), 0); // Closing a socket with unread data discards the data written to it
+	while (received > 0 || (received < 0 && errno == EINTR));
+#endif
+}
+
 // Gets the bound port of the socket, or zero if the socket is not valid.
 unsigned short k8psh::Socket::getPort() const
 {
diff --git a/src/Socket.hxx b/src/Socket.hxx
index a49f7bb..5db6d4d 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -90,6 +90,9 @@ public:
 	// (On Windows the socket will automatically be placed in non-blocking mode, and the event is subject to spurious wake-ups since it is reset after a wait rather than after a read.)
 	Event createReadEvent();
 
+	// Finishes writing to the socket, and waits until the socket is closed by the other end so that no written data is lost.
+	void finish();
+
 	// Gets the bound port of the socket, or zero if the socket is not valid.
 	unsigned short getPort() const;
 
-- 
2.43.0


From b3bca026c219b20790abb8e083126f379c054f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 09/32] fix: terminate the process on every failure of its
 connection, but not after it was reaped

---
 src/Process.cxx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index b12352b..98e085e 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -684,6 +684,18 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 #else
 		int process = fork();
 
+		// Terminates the process, unless it has already been reaped
+		struct ProcessTerminator
+		{
+			int process;
+
+			~ProcessTerminator()
+			{
+				if (process > 0)
+					(void)kill(process, 15); // Send TERM
+			}
+		} processTerminator = { process };
+
 		switch (process)
 		{
 		case 0:
@@ -819,6 +831,9 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
+#ifndef _WIN32
+				processTerminator.process = 0;
+#endif
 			}
 
 #ifndef _WIN32
@@ -923,8 +938,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 					default:
 #ifdef _WIN32
 						(void)TerminateProcess(process, UINT(-1));
-#else
-						(void)kill(process, 15); // Send TERM
 #endif
 
 						if (!dataReceived)
@@ -988,6 +1001,8 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				if (pid < 0 && errno != EINTR)
 					LOG_ERROR << "Failed to get exit code of process: " << errno;
 			}
+
+			processTerminator.process = 0;
 		}
 
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
-- 
2.43.0


From 7de8e2fef9ba6df5f06ad00e883580f9c19137db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 10/32] fix: terminate the process even if it has not been
 started yet

---
 src/Process.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Process.cxx b/src/Process.cxx
index 98e085e..48e3ba1 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -31,6 +31,7 @@
 	#include <cstdlib>
 
 	#include <poll.h>
+	#include <signal.h>
 	#include <sys/wait.h>
 	#include <unistd.h>
 
@@ -682,8 +683,21 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			(void)CloseHandle(pi.hThread);
 		}
 #else
+		sigset_t terminateSignal;
+		sigset_t originalSignals;
+
+		// Keep a terminate signal sent to the process before it is started from running the inherited signal handler
+		(void)sigemptyset(&terminateSignal);
+		(void)sigaddset(&terminateSignal, SIGTERM);
+		(void)sigprocmask(SIG_BLOCK, &terminateSignal, &originalSignals);
+
 		int process = fork();
 
+		if (process == 0)
+			(void)signal(SIGTERM, SIG_DFL);
+
+		(void)sigprocmask(SIG_SETMASK, &originalSignals, NULL);
+
 		// Terminates the process, unless it has already been reaped
 		struct ProcessTerminator
 		{
-- 
2.43.0


From 56022dc554f615a56d8b086926a961345eec79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 11/32] fix: notice that the client is gone after the process
 closed its output

---
 src/Process.cxx | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 48e3ba1..1b3fdfa 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -817,6 +817,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		waitSet[3] = process;
 #else
 		int exitStatus = 0;
+		int exitPollMs = 1;
 		struct pollfd pollSet[4] = { };
 
 		pollSet[0].events = POLLOUT;
@@ -827,7 +828,7 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 		pollSet[3].events = POLLIN;
 #endif
 
-		while (stdInPipe.getInput() != Pipe::INVALID_HANDLE || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
+		while (!processHasExited || stdOutPipe.getOutput() != Pipe::INVALID_HANDLE || stdErrPipe.getOutput() != Pipe::INVALID_HANDLE)
 		{
 			// Check for new data
 #ifdef _WIN32
@@ -837,7 +838,11 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 				LOG_ERROR << "Failed to wait on multiple objects for new data: " << GetLastError();
 			else if (waitResult == WAIT_OBJECT_0 + 3)
 #else
-			if (!processHasExited && waitpid(process, &exitStatus, WNOHANG) > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
+			pid_t pid = processHasExited ? 0 : waitpid(process, &exitStatus, WNOHANG);
+
+			if (pid < 0 && errno != EINTR)
+				LOG_ERROR << "Failed to get exit code of process: " << errno;
+			else if (pid > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
 #endif
 			{
 				LOG_DEBUG << "Process terminated, closing stdin, transfering remaining stdout and stderr data";
@@ -857,7 +862,16 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			pollSet[1].fd = stdOutPipe.getOutput();
 			pollSet[2].fd = stdErrPipe.getOutput();
 
-			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : 250);
+			int pollMs = 250;
+
+			// Once the process has closed its output, it is likely to exit, so check for that more often
+			if (stdOutPipe.getOutput() == Pipe::INVALID_HANDLE && stdErrPipe.getOutput() == Pipe::INVALID_HANDLE)
+			{
+				pollMs = processHasExited ? 0 : exitPollMs;
+				exitPollMs = exitPollMs < 125 ? exitPollMs * 2 : 250;
+			}
+
+			do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : pollMs);
 			while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
 			if (pollResult < 0)
@@ -988,10 +1002,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 
-		// Wait for application to exit
-		if (!processHasExited)
-			LOG_DEBUG << "Waiting for process to terminate";
-
 #ifdef _WIN32
 		if (processHasExited || WaitForSingleObject(process, INFINITE) == WAIT_OBJECT_0)
 		{
@@ -1004,21 +1014,6 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			}
 		}
 #else
-		if (!processHasExited)
-		{
-			pid_t pid = 0;
-
-			while (pid <= 0 || !(WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
-			{
-				pid = waitpid(process, &exitStatus, 0);
-
-				if (pid < 0 && errno != EINTR)
-					LOG_ERROR << "Failed to get exit code of process: " << errno;
-			}
-
-			processTerminator.process = 0;
-		}
-
 		if (WIFEXITED(exitStatus)) // Only send exit code on normal termination
 		{
 			int exitCode = WEXITSTATUS(exitStatus);
-- 
2.43.0


From 05c22f3d6fcfa8c968bf3b60ca5dcaa5b83c197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 12/32] fix: keep receiving data from the server while it does
 not accept stdin data

---
 src/Process.cxx | 40 +++++++++++++++++++++++++++++++---------
 src/Socket.cxx  | 21 +++++++++++++++++++++
 src/Socket.hxx  | 11 +++++++++++
 3 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 1b3fdfa..54de575 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -191,24 +191,38 @@ class BufferedSendSocket
 {
 	k8psh::Socket &_socket;
 	std::vector<std::uint8_t> _data;
+	std::size_t _start;
 	std::size_t _end;
 
 public:
-	BufferedSendSocket(k8psh::Socket &socket) : _socket(socket), _data(INITIAL_MTU_SIZE), _end() { }
-	~BufferedSendSocket() { flush(); }
+	BufferedSendSocket(k8psh::Socket &socket) : _socket(socket), _data(INITIAL_MTU_SIZE), _start(), _end() { }
+
+	// Checks if any data has not been sent to the socket
+	bool hasPendingData() const { return _end != 0; }
 
 	// Flushes any pending data to the socket
 	void flush()
 	{
 		if (_end)
 		{
-			if (_socket.write(_data, 0, _end) != _end)
+			if (_socket.write(_data, _start, _end) != _end - _start)
 				LOG_ERROR << "Failed to write data to socket";
 
-			_end = 0;
+			_start = _end = 0;
 		}
 	}
 
+#ifndef _WIN32
+	// Flushes as much pending data to the socket as possible without blocking
+	void flushAvailable()
+	{
+		_start += _socket.writeAvailable(_data, _start, _end);
+
+		if (_start == _end)
+			_start = _end = 0;
+	}
+#endif
+
 	// Writes a payload to the socket
 	void write(PayloadType type, const std::string &string, std::size_t length, bool flush = true)
 	{
@@ -342,13 +356,12 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 
 	waitSet[1] = socket.createReadEvent();
 #else
+	int stdInFile = STDIN_FILENO;
 	struct pollfd pollSet[2] = { };
 
-	pollSet[0].fd = STDIN_FILENO;
 	pollSet[0].events = POLLIN;
 
 	pollSet[1].fd = socket.createReadEvent();
-	pollSet[1].events = POLLIN;
 #endif
 
 	std::string stdInBuffer(DATA_BUFFER_SIZE - 1, '\0');
@@ -365,6 +378,10 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 #else
 		int pollResult;
 
+		// Always keep receiving data while waiting to send stdin data, so we don't end up in a socket-write deadlock
+		pollSet[0].fd = sendSocket.hasPendingData() ? -1 : stdInFile;
+		pollSet[1].events = sendSocket.hasPendingData() ? POLLIN | POLLOUT : POLLIN;
+
 		do pollResult = poll(pollSet, nfds_t(sizeof(pollSet) / sizeof(pollSet[0])), receiveSocket.hasBufferedData() ? 0 : -1);
 		while (pollResult < 0 && (errno == EAGAIN || errno == EINTR));
 
@@ -395,12 +412,17 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 			if (received < 0)
 				LOG_ERROR << "Failed to read data from stdin: " << errno;
 			else if (received == 0)
-				pollSet[0].fd = -1; // No more data, so ignore it from now on
+				stdInFile = -1; // No more data, so ignore it from now on
 
 			LOG_DEBUG << "Sending stdin data (" << received << " bytes) to server";
-			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received));
+			sendSocket.write(STDIN_DATA, stdInBuffer, std::size_t(received), false);
+			sendSocket.flushAvailable();
 #endif
 		}
+#ifndef _WIN32
+		else if ((pollSet[1].revents & POLLOUT) != 0)
+			sendSocket.flushAvailable();
+#endif
 
 		// Check for socket data
 #ifdef _WIN32
@@ -431,7 +453,7 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 						std::cin.setstate(std::ios_base::eofbit);
 						(void)std::fclose(stdin);
 #ifndef _WIN32
-						pollSet[0].fd = -1; // The descriptor is closed, so ignore it from now on
+						stdInFile = -1; // The descriptor is closed, so ignore it from now on
 #endif
 					}
 
diff --git a/src/Socket.cxx b/src/Socket.cxx
index 91a4711..18436c2 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -229,6 +229,27 @@ void k8psh::Socket::close()
 	}
 }
 
+#ifndef _WIN32
+/** Writes as much data to the socket as possible without blocking.
+ *
+ * @param data a vector of data to write to the socket
+ * @param offset the offset into the vector to write data from
+ * @param end the ending index (exclusive) of the data to write
+ * @return the number of bytes written to the socket
+ */
+std::size_t k8psh::Socket::writeAvailable(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end)
+{
+	auto sent = send(_handle, data.data() + offset, end - offset, MSG_DONTWAIT);
+
+	if (sent >= 0)
+		return sent;
+	else if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)
+		LOG_ERROR << "Failed to write data to socket: " << getSocketErrorCode();
+
+	return 0;
+}
+#endif
+
 // Finishes writing to the socket, and waits until the socket is closed by the other end so that no written data is lost.
 void k8psh::Socket::finish()
 {
diff --git a/src/Socket.hxx b/src/Socket.hxx
index 5db6d4d..5eda586 100644
--- a/src/Socket.hxx
+++ b/src/Socket.hxx
@@ -90,6 +90,17 @@ public:
 	// (On Windows the socket will automatically be placed in non-blocking mode, and the event is subject to spurious wake-ups since it is reset after a wait rather than after a read.)
 	Event createReadEvent();
 
+#ifndef _WIN32
+	/** Writes as much data to the socket as possible without blocking.
+	 *
+	 * @param data a vector of data to write to the socket
+	 * @param offset the offset into the vector to write data from
+	 * @param end the ending index (exclusive) of the data to write
+	 * @return the number of bytes written to the socket
+	 */
+	std::size_t writeAvailable(const std::vector<std::uint8_t> &data, std::size_t offset, std::size_t end);
+#endif
+
 	// Finishes writing to the socket, and waits until the socket is closed by the other end so that no written data is lost.
 	void finish();
 
-- 
2.43.0


From dc3625bbf0ba8c3970427875b6eab59fec8e791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 13/32] fix: make an installed copy that overwrites a file
 complete and executable

---
 src/Main.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 1abd261..ade5ac9 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -156,7 +156,7 @@ static void mainClient(int argc, const char *argv[])
 					if (source < 0)
 						LOG_ERROR << "Failed to open " << clientCommand << ": " << errno;
 
-					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT, 0755);
+					int dest = open(installFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
 
 					if (dest < 0)
 						LOG_ERROR << "Failed to open " << installFilename << ": " << errno;
@@ -186,7 +186,12 @@ static void mainClient(int argc, const char *argv[])
 					}
 
 					(void)close(source);
-					(void)close(dest);
+
+					if (fchmod(dest, 0755) != 0) // An overwritten file keeps its permissions
+						LOG_ERROR << "Failed to set permissions of " << installFilename << ": " << errno;
+
+					if (close(dest) != 0)
+						LOG_ERROR << "Failed to write data to " << installFilename << " while installing from " << clientCommand << ": " << errno;
 				}
 #endif
 
-- 
2.43.0


From 7771c9187bd62e275adabf1a18d7e679a344226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 14/32] fix: remove the files of a daemon that were created in
 a relative path

---
 src/Main.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index ade5ac9..8624c29 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -274,6 +274,14 @@ BOOL WINAPI handleCtrlC(DWORD)
 }
 #endif
 
+#ifndef _WIN32
+// Gets the absolute name of a file, which does not have to exist.
+static std::string getAbsoluteFilename(const std::string &filename)
+{
+	return filename[0] == '/' ? filename : k8psh::Utilities::getWorkingDirectory() + '/' + filename;
+}
+#endif
+
 static const std::string defaultPidFilename = "/run/" + serverName + ".pid";
 
 // The main() for the server that waits requests to run executables in the configuration
@@ -535,6 +543,13 @@ static void mainServer(int argc, const char *argv[])
 #else
 				LOG_DEBUG << "Starting daemon";
 
+				// The daemon changes its working directory, so make sure that it removes the files that were created
+				for (auto it = createdExecutables.begin(); it != createdExecutables.end(); ++it)
+					*it = getAbsoluteFilename(*it);
+
+				if (!pidFilename.empty())
+					pidFilename = getAbsoluteFilename(pidFilename);
+
 				switch (fork())
 				{
 				case 0:
-- 
2.43.0


From f1751d5c190de13d122d6b7634b1f0ce095b115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 15/32] fix: remove created files if the server is terminated
 while it starts

---
 src/Main.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 8624c29..d6f527c 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -488,6 +488,12 @@ static void mainServer(int argc, const char *argv[])
 #endif
 	};
 
+#ifndef _WIN32
+	// Handle signals before creating any files, so that they are removed
+	signal(SIGTERM, handleSignal);
+	signal(SIGINT, handleSignal);
+#endif
+
 	try
 	{
 		for (auto it = commands.begin(); it != commands.end(); ++it)
@@ -603,10 +609,10 @@ static void mainServer(int argc, const char *argv[])
 			}
 #endif
 
+#ifdef _WIN32
 			signal(SIGTERM, handleSignal);
 			signal(SIGINT, handleSignal);
 
-#ifdef _WIN32
 			(void)SetConsoleCtrlHandler(handleCtrlC, TRUE);
 #endif
 
-- 
2.43.0


From 955b34dd2c4ce3db7f58b02cb18e728233ed130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 16/32] fix: let the launcher of a daemon wait for it to start
 and report its failure

---
 src/Main.cxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index d6f527c..c98d1cd 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -556,6 +556,8 @@ static void mainServer(int argc, const char *argv[])
 				if (!pidFilename.empty())
 					pidFilename = getAbsoluteFilename(pidFilename);
 
+				k8psh::Pipe ready;
+
 				switch (fork())
 				{
 				case 0:
@@ -565,8 +567,13 @@ static void mainServer(int argc, const char *argv[])
 					LOG_ERROR << "Failed to fork daemon";
 
 				default:
-					(void)close(listener.abandon());
-					std::exit(0);
+					{
+						std::string status(1, '\0');
+
+						ready.closeInput();
+						(void)close(listener.abandon());
+						std::exit(ready.read(status) == 1 ? 0 : -1); // The daemon cleans up if it fails
+					}
 				}
 
 				// Create PID file
@@ -599,6 +606,10 @@ static void mainServer(int argc, const char *argv[])
 				(void)dup2(devNull, STDOUT_FILENO);
 				(void)dup2(devNull, STDERR_FILENO);
 				(void)close(devNull);
+
+				// Let the launching process exit
+				if (ready.write("1") != 1)
+					LOG_ERROR << "Failed to report that the daemon has started";
 #endif
 			}
 #ifndef _WIN32
-- 
2.43.0


From c3dcccb63cf0202efe24cb897f0aff0dbba49508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 17/32] fix: interpret the hexadecimal digits a to f of escape
 sequences

---
 src/Configuration.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index da9de39..ea39635 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -28,11 +28,11 @@ static char parseHexValue(char c)
 	if (c >= '0' && c <= '9')
 		return c - '0';
 	else if (c >= 'a' && c <= 'f')
-		return c - 'a';
+		return c - 'a' + 10;
 	else if (!(c >= 'A' && c <= 'F'))
 		LOG_ERROR << "Invalid hex character in configuration: " << c;
 
-	return c - 'A';
+	return c - 'A' + 10;
 }
 
 // Parses a string from the configuration.
-- 
2.43.0


From bbcde5aa8bcdf560838a28d4ff4fdb31b3b44e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 18/32] fix: treat timeouts beyond the range of the clock as
 unlimited

---
 src/Main.cxx    | 6 +++++-
 src/Process.cxx | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index c98d1cd..357ed0c 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -539,7 +539,11 @@ static void mainServer(int argc, const char *argv[])
 			try { timeoutMs = std::stoll(timeout); }
 			catch (const std::exception &e) { LOG_ERROR << "Failed to parse timeout (" << timeout << "): " << e.what(); }
 
-			auto endTime = timeoutMs >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs) : std::chrono::steady_clock::time_point::max();
+			auto endTime = std::chrono::steady_clock::time_point::max();
+			auto startTime = std::chrono::steady_clock::now();
+
+			if (timeoutMs >= 0 && timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+				endTime = startTime + std::chrono::milliseconds(timeoutMs);
 
 			// Daemonize, if desired
 			if (daemonize)
diff --git a/src/Process.cxx b/src/Process.cxx
index 54de575..07bdfdb 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -289,7 +289,12 @@ int k8psh::Process::runRemoteCommand(const std::string &workingDirectory, const
 	Socket socket;
 	BufferedSendSocket sendSocket(socket);
 	BufferedReceiveSocket receiveSocket(socket);
-	auto endTime = configuration.getConnectTimeoutMs() >= 0 ? std::chrono::steady_clock::now() + std::chrono::milliseconds(configuration.getConnectTimeoutMs()) : std::chrono::steady_clock::time_point::max();
+	auto endTime = std::chrono::steady_clock::time_point::max();
+	auto startTime = std::chrono::steady_clock::now();
+
+	if (configuration.getConnectTimeoutMs() >= 0 && configuration.getConnectTimeoutMs() < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
+		endTime = startTime + std::chrono::milliseconds(configuration.getConnectTimeoutMs());
+
 	std::chrono::milliseconds backoff = std::chrono::milliseconds(16);
 
 	// Connect to the server
-- 
2.43.0


From f5eed14c0580e8edeb9deacbf9affdef427cd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 19/32] fix: remove the files of a server that is hung up on
 while it starts

---
 src/Main.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 357ed0c..b292b0f 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -492,6 +492,7 @@ static void mainServer(int argc, const char *argv[])
 	// Handle signals before creating any files, so that they are removed
 	signal(SIGTERM, handleSignal);
 	signal(SIGINT, handleSignal);
+	signal(SIGHUP, handleSignal);
 #endif
 
 	try
@@ -618,10 +619,7 @@ static void mainServer(int argc, const char *argv[])
 			}
 #ifndef _WIN32
 			else
-			{
-				signal(SIGHUP, handleSignal);
 				signal(SIGCHLD, SIG_IGN);
-			}
 #endif
 
 #ifdef _WIN32
-- 
2.43.0


From 0a0b151534f18fe6e92eca9aa686c37e49a66af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 20/32] fix: reject ports beyond the last one

Hosts are numbered consecutively, and after 65535 the numbers started again
at 0: the server listened on any free port, where no client looks for it.
---
 src/Configuration.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cxx b/src/Configuration.cxx
index ea39635..bb91cd3 100644
--- a/src/Configuration.cxx
+++ b/src/Configuration.cxx
@@ -277,7 +277,10 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 
 			// Assign the new host information
 			currentHost->_hostname = host.substr(0, colon);
-			currentHost->_port = currentPort++;
+			currentHost->_port = currentPort;
+
+			if (currentPort != 0) // There are no more ports after the last one
+				currentPort++;
 
 			// Parse the options for environment variables
 			environmentVariables.clear();
@@ -301,6 +304,9 @@ k8psh::Configuration k8psh::Configuration::load(const std::string &configuration
 			std::vector<std::string> values;
 			i = ensureRestOfLineEmpty(configurationString, parseArguments(configurationString, i, values));
 
+			if (currentHost->getPort() == 0)
+				LOG_ERROR << "Port out of range for host \"" << currentHost->getHostname() << '"';
+
 			// Create the command
 			command._host = currentHost;
 			command._name = std::move(values[0]);
-- 
2.43.0


From 5c5a4980fb737bb7dae43700a3d0e7820cb4fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 21/32] fix: run commands below a base directory that is
 reached through a symbolic link

The working directory of a client never contains symbolic links, so every
command failed ("unrelated paths") when the path of the configuration file
or the baseDirectory setting did.
---
 src/Main.cxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index b292b0f..eb25579 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -2,6 +2,7 @@
 // Portions of this software are public domain or licensed under the MIT license. (See the license file for details.)
 
 #include <chrono>
+#include <climits>
 #include <csignal>
 #include <cstdio>
 #include <cstdlib>
@@ -104,6 +105,19 @@ template <typename ArgListT> static bool parseOption(const std::string &argument
 
 static void mainServer(int argc, const char *argv[]);
 
+// Gets the working directory of the client relative to the base directory.
+static std::string getRelativeWorkingDirectory(const k8psh::Configuration &configuration)
+{
+#ifndef _WIN32
+	char baseDirectory[PATH_MAX];
+
+	if (realpath(configuration.getBaseDirectory().c_str(), baseDirectory)) // The working directory never contains symbolic links
+		return k8psh::Utilities::relativizePath(baseDirectory, k8psh::Utilities::getWorkingDirectory());
+#endif
+
+	return k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), k8psh::Utilities::getWorkingDirectory());
+}
+
 // The main() for connecting to the server and starting the process
 static void mainClient(int argc, const char *argv[])
 {
@@ -220,7 +234,7 @@ static void mainClient(int argc, const char *argv[])
 		LOG_ERROR << "Failed to find command \"" << commandName << "\" in configuration";
 
 	LOG_DEBUG << "Starting command " << commandName;
-	std::exit(k8psh::Process::runRemoteCommand(k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), k8psh::Utilities::getWorkingDirectory()), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
+	std::exit(k8psh::Process::runRemoteCommand(getRelativeWorkingDirectory(configuration), commandIt->second, std::size_t(argc) - i, argv + i, configuration));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From c62a5bde6407bba20043a8f4a89d00a4d29231f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 22/32] fix: fail if the working directory of the client cannot
 be determined

With the base directory / the command was started in / instead.
---
 src/Main.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index eb25579..b0b02fc 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -108,14 +108,19 @@ static void mainServer(int argc, const char *argv[]);
 // Gets the working directory of the client relative to the base directory.
 static std::string getRelativeWorkingDirectory(const k8psh::Configuration &configuration)
 {
+	const std::string workingDirectory = k8psh::Utilities::getWorkingDirectory();
+
+	if (workingDirectory.empty()) // For example, because it has been removed
+		LOG_ERROR << "Working directory could not be determined";
+
 #ifndef _WIN32
 	char baseDirectory[PATH_MAX];
 
 	if (realpath(configuration.getBaseDirectory().c_str(), baseDirectory)) // The working directory never contains symbolic links
-		return k8psh::Utilities::relativizePath(baseDirectory, k8psh::Utilities::getWorkingDirectory());
+		return k8psh::Utilities::relativizePath(baseDirectory, workingDirectory);
 #endif
 
-	return k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), k8psh::Utilities::getWorkingDirectory());
+	return k8psh::Utilities::relativizePath(configuration.getBaseDirectory(), workingDirectory);
 }
 
 // The main() for connecting to the server and starting the process
-- 
2.43.0


From c2571ad03cb7436336c522f4cd358bb4dfb6fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 23/32] fix: keep a continuous stream of data from holding up
 the data of the other direction

---
 src/Process.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 07bdfdb..83f3b4d 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -129,8 +129,15 @@ public:
 	// Checks if the buffer has data
 	bool hasBufferedData() const { return _readOffset != _end; }
 
-	// Checks if the socket has data
-	bool hasData() const { return hasBufferedData() || _socket.hasData(); }
+	// Checks if there is more data to be processed before waiting for any other data
+	bool hasData() const
+	{
+#ifdef _WIN32
+		return hasBufferedData() || _socket.hasData();
+#else
+		return false; // Leave it to the next pass, so that a continuous stream of data does not hold up all other data
+#endif
+	}
 
 	// Reads a payload type and value from the socket, returning true if the data was read and false if the socket is closed
 	bool read(PayloadType &type, std::uint32_t &value)
-- 
2.43.0


From d9b3a58c9b1d0c1e994100c7ed198c33d309e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 24/32] fix: stop at the timeout of the server even if more
 clients are waiting to be accepted

The timeout was only noticed when no connection was pending: as long as
clients arrived faster than the server accepted them, it kept serving
beyond its timeout.
---
 src/Main.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index b0b02fc..d48f466 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -679,7 +679,7 @@ static void mainServer(int argc, const char *argv[])
 					LOG_ERROR << "Failed to wait on multiple objects for new clients: " << GetLastError();
 				else if (waitResult == WAIT_OBJECT_0)
 					break;
-				else if (waitResult == WAIT_TIMEOUT)
+				else if (waitResult == WAIT_TIMEOUT || (timeoutMs >= 0 && remainingMs <= 0))
 #else
 				auto waitMs = clampPositive(remainingMs, std::chrono::milliseconds::rep(unsigned(-1) >> 1));
 				int pollResult;
@@ -691,7 +691,7 @@ static void mainServer(int argc, const char *argv[])
 					LOG_ERROR << "Failed to poll for new clients: " << errno;
 				else if ((pollSet[0].revents & (POLLIN | POLLHUP | POLLERR)) != 0)
 					break;
-				else if (pollResult == 0)
+				else if (pollResult == 0 || (timeoutMs >= 0 && remainingMs <= 0)) // Even if more clients are waiting
 #endif
 				{
 					if (remainingMs <= waitMs)
-- 
2.43.0


From 8ef519670a7ee84ff289108700f23c97755955ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 25/32] fix: forget the ID of a reaped command before anything
 can fail

An allocation failure between reaping the command and clearing its ID let
the connection process signal an ID that may belong to another process.
---
 src/Process.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Process.cxx b/src/Process.cxx
index 83f3b4d..3e261be 100644
--- a/src/Process.cxx
+++ b/src/Process.cxx
@@ -879,14 +879,14 @@ void k8psh::Process::run(const std::string &workingDirectory, const k8psh::Confi
 			else if (pid > 0 && (WIFEXITED(exitStatus) || WIFSIGNALED(exitStatus)))
 #endif
 			{
+#ifndef _WIN32
+				processTerminator.process = 0; // The process ID may be reused from now on, even if anything below fails
+#endif
 				LOG_DEBUG << "Process terminated, closing stdin, transfering remaining stdout and stderr data";
 
 				stdInData.clear();
 				stdInPipe.closeInput();
 				processHasExited = true;
-#ifndef _WIN32
-				processTerminator.process = 0;
-#endif
 			}
 
 #ifndef _WIN32
-- 
2.43.0


From b2a71a131bc860e095b98dec2b12850208b5a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 26/32] fix: do not log in the signal handler, which may have
 interrupted logging

---
 src/Main.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index d48f466..a8c08fc 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -277,10 +277,11 @@ template <typename T> static T clampPositive(T value, T max)
 // Handles signals by requesting that the application exit.
 extern "C" void handleSignal(int signal)
 {
-	LOG_DEBUG << "Handling signal " << signal;
 #ifdef _WIN32
+	LOG_DEBUG << "Handling signal " << signal;
 	(void)SetEvent(exitRequested);
 #else
+	(void)signal; // Logging is not safe, since the signal may have interrupted it
 	exitRequested.closeInput();
 #endif
 }
-- 
2.43.0


From a23aa6437326546b0a2e172948f26b1c9dce7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 27/32] fix: do not spin while pending connections cannot be
 accepted

---
 src/Main.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index a8c08fc..2e067e6 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -743,6 +743,10 @@ static void mainServer(int argc, const char *argv[])
 
 					connectionCount++;
 				}
+#ifndef _WIN32
+				else
+					(void)poll(pollSet, 1, 250); // The connection may still be pending, so do not keep trying to accept it continuously
+#endif
 			}
 
 			if (maxConnections >= 0 && connectionCount >= maxConnections)
-- 
2.43.0


From 695dc55cd769b270c029274467a94792cef9d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 28/32] fix: do not mistake a socket that is connected to
 itself for a connection to the server

---
 src/Socket.cxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Socket.cxx b/src/Socket.cxx
index 18436c2..83b1340 100644
--- a/src/Socket.cxx
+++ b/src/Socket.cxx
@@ -167,6 +167,23 @@ k8psh::Socket k8psh::Socket::connect(unsigned short port, bool failOnError)
 		return INVALID_HANDLE;
 	}
 
+#ifndef _WIN32
+	// When nothing listens on the port, the port may be chosen as the source port and the socket be connected to itself; reset the connection so that the port does not remain in use
+	if (socket.getPort() == port)
+	{
+		linger reset = linger();
+
+		reset.l_onoff = 1;
+		(void)setSocketOption<linger>(socket._handle, SOL_SOCKET, SO_LINGER, reset);
+		(void)::close(socket.abandon());
+
+		if (failOnError)
+			LOG_ERROR << "Failed to connect to port " << port << ": no server";
+
+		return INVALID_HANDLE;
+	}
+#endif
+
 	setSocketOptions(socket._handle);
 	LOG_DEBUG << "Connected to port " << port << " on socket " << socket._handle;
 	return socket;
-- 
2.43.0


From acbf5803ff48d6bc081e3fd6b940c2e97ff5fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 29/32] fix: wait for connections only, not for other child
 processes of the server

---
 src/Main.cxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index 2e067e6..93ed14c 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -566,6 +566,13 @@ static void mainServer(int argc, const char *argv[])
 			if (timeoutMs >= 0 && timeoutMs < std::chrono::duration_cast<std::chrono::milliseconds>(endTime - startTime).count())
 				endTime = startTime + std::chrono::milliseconds(timeoutMs);
 
+#ifndef _WIN32
+			k8psh::Pipe activeConnections; // Every connection process keeps a copy of the input open until it terminates
+
+			if (fcntl(activeConnections.getInput(), F_SETFD, FD_CLOEXEC) == -1)
+				LOG_ERROR << "Failed to keep commands from inheriting a pipe: " << errno;
+#endif
+
 			// Daemonize, if desired
 			if (daemonize)
 			{
@@ -727,6 +734,7 @@ static void mainServer(int argc, const char *argv[])
 						(void)close(listener.abandon());
 						exitRequested.closeInput(); // The server waits for every copy of the input to be closed
 						exitRequested.closeOutput();
+						activeConnections.closeOutput();
 						signal(SIGCHLD, SIG_DFL);
 
 						try { k8psh::Process::run(configuration.getBaseDirectory(), *serverCommands, std::move(client)); }
@@ -768,14 +776,12 @@ static void mainServer(int argc, const char *argv[])
 #else
 			if (waitOnClientConnections && connectionCount)
 			{
-				int status;
+				std::string status(1, '\0');
 
+				// The server may have other child processes, so wait for the end of the pipe instead of waiting for all children
 				LOG_DEBUG << "Waiting for all connections to terminate";
-				signal(SIGCHLD, SIG_DFL);
-
-				while (wait(&status) >= 0 || errno != ECHILD)
-					; // Continue until all children have been reaped
-
+				activeConnections.closeInput();
+				(void)activeConnections.read(status);
 				LOG_DEBUG << "All connections terminated";
 			}
 #endif
-- 
2.43.0


From 405c3cf442c04153335027b592c1991e8b614233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 30/32] fix: stop listening when the server stops accepting
 connections

---
 src/Main.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cxx b/src/Main.cxx
index 93ed14c..f27593d 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -757,6 +757,8 @@ static void mainServer(int argc, const char *argv[])
 #endif
 			}
 
+			listener.close(); // Clients that connect from now on would not be served, so let them wait for another server
+
 			if (maxConnections >= 0 && connectionCount >= maxConnections)
 				LOG_INFO << "Shutting down the server after accepting the maximum number of connections (" << connectionCount << ")";
 			else if (timeoutMs >= 0)
-- 
2.43.0


From 99aa9d8f962b0331e899070e45a144312bdf7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 31/32] fix: fail if the working directory cannot be determined

A server whose directories were given relatively took the root directory
for its working directory if it could not be determined: it served the
wrong base directory, wrote its PID file there and left its client
executables behind.
---
 src/Utilities.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utilities.cxx b/src/Utilities.cxx
index af67bef..3110104 100644
--- a/src/Utilities.cxx
+++ b/src/Utilities.cxx
@@ -558,11 +558,16 @@ std::string k8psh::Utilities::getWorkingDirectory()
 	std::string buffer = std::string(initialBufferSize, '\0');
 
 #ifdef _WIN32
-	while (!_getcwd(&buffer[0], int(buffer.size())) && errno == ERANGE)
+	while (!_getcwd(&buffer[0], int(buffer.size())))
 #else
-	while (!getcwd(&buffer[0], buffer.size()) && errno == ERANGE)
+	while (!getcwd(&buffer[0], buffer.size()))
 #endif
+	{
+		if (errno != ERANGE)
+			LOG_ERROR << "Failed to get working directory: " << errno;
+
 		buffer.resize(buffer.size() * 2);
+	}
 
 	std::string workingDirectory = buffer.c_str();
 	initialBufferSize = initialBufferSize > workingDirectory.length() ? initialBufferSize : workingDirectory.length();
-- 
2.43.0


From 557fdf4e44bb101087d98a744229b2af74b7633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 32/32] fix: remove a client executable that was created when
 memory was exhausted

The name was recorded after the file had been created, so a failure to
record it left the file behind and kept the next server from starting.
---
 src/Main.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Main.cxx b/src/Main.cxx
index f27593d..38efa65 100644
--- a/src/Main.cxx
+++ b/src/Main.cxx
@@ -531,6 +531,8 @@ static void mainServer(int argc, const char *argv[])
 			if (disableClientExecutables || (!generateLocalExecutables && name == it->second.getHost().getHostname()))
 				continue;
 
+			createdExecutables.emplace_back(filename); // First, since every file that is created must be removed even if memory is exhausted
+
 #ifdef _WIN32
 			// Attempt to link or copy executable (hardlinks can't be deleted while in use, so don't hardlink to executable otherwise overwrite client executables option will fail)
 			if (CreateSymbolicLinkA(filename.c_str(), clientCommand.c_str(), SYMBOLIC_LINK_FLAG_ALLOW_UNPRIVILEGED_CREATE) != 0 ||
@@ -542,10 +544,12 @@ static void mainServer(int argc, const char *argv[])
 #else
 			if (symlink(clientCommand.c_str(), filename.c_str()) != 0)
 #endif
+			{
+				createdExecutables.pop_back();
 				LOG_ERROR << "Failed to create client executable for command " << it->second.getName();
+			}
 
 			LOG_DEBUG << "Created client executable " << filename;
-			createdExecutables.emplace_back(filename);
 		}
 
 		if (listener.isValid())
-- 
2.43.0

