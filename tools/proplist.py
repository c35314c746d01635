prop('C01', 'No C++ exception leaves the C API',
     'No call of a public winpty function ends by throwing a C++ exception or by terminating the process because of one: every failure, including running out of memory at any allocation and while an earlier failure is being reported, comes back as the documented return value.',
     ['inputs', 'fault_sequences'], 'every argument combination and every failing allocation, system call or decode step inside the call',
     TESTS + 'none makes an allocation or a Windows call fail inside the library.',
     [LIB, 'src/shared'], [('API_TRY/API_CATCH and translateException', LIB)],
     note='Every exceptional edge of every exported function is explored; a library call is assumed to throw unless the compiler knows it does not.')
prop('C02', 'API failures and error objects correspond one to one',
     'A public function that takes an error pointer stores a null error exactly when it succeeds, and when it fails it returns its failure value and (if the caller passed an error pointer) stores an error object with a failure code and a message. Error objects and results are never leaked or released twice: a dynamically allocated error is freed by winpty_error_free exactly once, a static one is never freed, and without an error pointer the object is released by the library.',
     ['inputs', 'fault_sequences'], 'every path through every public function, with and without an error pointer, with any internal failure',
     TESTS + 'failure paths are not executed.', [LIB], [('translateException, winpty_error_free, error statics', LIB)])
prop('C03', 'An interrupted agent exchange closes the control pipe',
     'When a request to the agent fails after the exchange has begun and before the complete reply has been received and decoded, the control pipe is closed before the public function returns, so that a late or partial reply can never be taken for the answer to a later request. An exchange whose reply was completely consumed leaves the pipe open, and a request made after the pipe was closed fails without any pipe I/O.',
     ['fault_sequences', 'histories'], 'every failure point of every request, and every sequence of requests after it',
     TESTS + 'no test makes an exchange fail.', [LIB], [('RpcOperation guard', LIB)])
prop('C04', 'Agent requests on one session are serialised',
     'Every read, write or close of the control pipe of an open session happens while the calling thread holds that session\'s lock, from before the request is sent until the whole reply has been read; the lock is released on every way out of the call, including exceptions, and is never held when the call returns.',
     ['schedules', 'fault_sequences'], 'any number of threads calling into one session concurrently, with failures at any point',
     TESTS + 'no test uses two threads on one session.', [LIB, 'src/shared/Mutex.h'], [('LockGuard<Mutex> in winpty_spawn, winpty_set_size, winpty_get_console_process_list', LIB)])
prop('C05', 'Waiting for the agent is bounded and its outcome reported exactly',
     'The library never waits for the agent without also watching the agent process and applying the timeout of the session\'s configuration. If the agent exits the call fails with the agent-died code, if the timeout elapses with the agent-timeout code, and if the pipe is broken with the lost-connection code; an untimed wait occurs only for an operation that has completed or been cancelled.',
     ['schedules', 'fault_sequences'], 'any timing of agent replies, agent death and timeouts during any request',
     TESTS + 'the agent always answers.', [LIB], [('handlePendingIo, handleReadWriteErrors, agentTimeoutMs', LIB)])
prop('C06', 'Library overlapped I/O ends before its buffers do',
     'When an overlapped read, write or connect started by the library is still pending, its OVERLAPPED record and data buffer stay valid until the operation has completed or has been cancelled and its completion awaited, whichever way the function is left.',
     ['schedules', 'fault_sequences'], 'every ordering of completion, timeout, agent death and exceptions',
     TESTS + 'pending operations that fail or time out are not exercised.', [LIB], [('PendingIo destructor', LIB)])
prop('C07', 'Agent pipes are closed only after their I/O has ended',
     'Whenever the agent closes a pipe it first cancels outstanding operations and then waits for every operation that may still be pending (connect, read and write) before the handle is closed or the operation\'s buffer is freed. At most one read and one write are outstanding per pipe and a completed operation is accounted for exactly once.',
     ['schedules', 'fault_sequences', 'histories'], 'every combination of pending operations and every pipe error, disconnect or shutdown order',
     TESTS + 'pipe errors with pending operations are not produced.', [NP, 'src/agent/NamedPipe.h'], [('NamedPipe::closePipe, IoWorker::waitForCanceledIo', NP)])
prop('C08', 'Every pipe server is private to the user',
     'Every named pipe created by the library or the agent is the first instance of its name, allows only one instance, rejects remote clients wherever the system supports it, and carries a security descriptor that grants access only to its owner. If the descriptor cannot be made the pipe is not created. The debug server alone may open its pipe to everyone, and only when started with its explicit option.',
     ['programs', 'fault_sequences', 'configurations'], 'every place where a pipe server is created and every failure of the preparation calls',
     TESTS + 'security attributes are never inspected.', [LIB, NP, 'src/shared/WindowsSecurity.cc', 'src/debugserver/DebugServer.cc'],
     [('createPipeSecurityDescriptorOwnerFullControl, rejectRemoteClientsPipeFlag, GenRandom', 'src/shared/WindowsSecurity.cc')])
prop('C09', 'The agent connects with identification-level impersonation only',
     'When the agent opens the control pipe as a client it limits impersonation to the identification level, opens only an existing pipe, in overlapped mode and without sharing or inheritance, so that a hostile server on that name cannot act with the rights of the agent\'s user.',
     ['programs'], 'every place where the agent opens a pipe as client', TESTS + 'no hostile server is simulated.', [NP], [('NamedPipe::connectToServer', NP)])
prop('C10', 'Only the agent process we started is trusted on the control pipe',
     'Before the library reads or writes any byte on a control pipe it has established that the connected client is the agent process it created (unless the operating system cannot tell); on a mismatch or a failed query the session is abandoned with an error and the pipe closed without exchanging data.',
     ['schedules', 'fault_sequences'], 'any process connecting to the pipe, any result of the query', TESTS + 'no foreign client connects.', [LIB], [('verifyPipeClientPid, createAgentSession', LIB)])
prop('C11', 'Library and agent agree on every message',
     'For every request the sequence and types of the fields the library writes are exactly those the agent reads, and likewise for every reply and for the session set-up messages, on every path and whatever the values; both sides give each field the same meaning, from the public parameter to the Windows call and back. The library consumes every well-formed reply completely, whatever the caller\'s buffer sizes.',
     ['inputs', 'programs'], 'all values of all fields, all optional-field combinations', TESTS + 'one spawn with one set of values is exercised.',
     [LIB, AG, 'src/shared/AgentMsg.h', 'src/shared/Buffer.cc'], [('WriteBuffer/ReadBuffer call sequences', LIB + ', ' + AG)])
prop('C12', 'One reply per request, after its effect',
     'The agent answers every well-formed request with exactly one reply, sent after the request has taken effect (process created, window resized, process list taken), and sends nothing on the control pipe otherwise except its single set-up message.',
     ['histories', 'inputs'], 'any sequence of requests', TESTS + 'one spawn request is exercised.', [AG], [('handlePacket and the three handlers', AG)])
prop('C13', 'The library neither leaks nor double-closes handles',
     'Every handle the library obtains (processes, threads, events, pipes, duplicated handles) is closed exactly once, or handed to the caller or stored in the session object that closes it when freed; no handle is used or closed after it was closed, on any path including every failure path.',
     ['fault_sequences', 'histories'], 'failure of any call after any prefix of acquisitions', TESTS + 'failures after acquisition are not injected.', [LIB, 'src/shared/OwnedHandle.cc'], [('OwnedHandle', 'src/shared/OwnedHandle.h')])
prop('C14', 'Spawn hands out handles and error codes truthfully',
     'winpty_spawn sets its output parameters on every path: on success exactly the requested handles, each the caller\'s own duplicate of the child\'s, with a zero process-creation error; on failure all handles null, and the process-creation error non-default only if process creation itself failed, in which case it is the agent\'s reported code and the error code says so.',
     ['inputs', 'fault_sequences'], 'any combination of optional output parameters and any failure', TESTS + 'spawn is exercised once, successfully.', [LIB], [('winpty_spawn, stealHandle', LIB)])
prop('C15', 'Processes are started without stray inherited handles',
     'The library starts the agent without inheriting any handle. The agent starts the child without inheritance, except in separate-stderr mode where its standard handles are passed explicitly and the only inheritable handles the agent creates are the console buffers meant for the child; no pipe, event or process handle is ever made inheritable.',
     ['programs', 'configurations'], 'every process creation and every handle-creating call', TESTS + 'inheritance is never inspected.', [LIB, AG, 'src/agent/Win32ConsoleBuffer.cc'], [('CreateProcessW arguments', LIB + ', ' + AG)])
prop('C16', 'The caller\'s window station is always restored',
     'If the library switches the process to a background window station while opening a session, the original one is restored before winpty_open returns, on success and on every failure, and the handles of the temporary desktop and station are closed after that; the original station is never closed.',
     ['fault_sequences'], 'failure of any call after the switch', TESTS + 'the background desktop is not used by default.', ['src/shared/BackgroundDesktop.cc', LIB], [('BackgroundDesktop::dispose', 'src/shared/BackgroundDesktop.cc')])
prop('C17', 'Auto-shutdown loses no output',
     'The agent closes its output pipes for auto-shutdown only after auto-shutdown was requested and the child process has exited, after the console has been scraped once more following that exit, after the terminal\'s mouse mode has been switched off, and only when the pipe is connected and every queued byte has been written. The agent ends itself only when its control pipe is gone, or when exit-after-shutdown was requested and all output pipes are closed.',
     ['schedules', 'histories'], 'any interleaving of child exit, output, pipe connection and polling', TESTS + 'one interleaving is sampled.', [AG], [('onPollTimeout, autoClosePipesForShutdown', AG)])
prop('C18', 'The agent ends when its control pipe is lost',
     'When the control pipe is closed or broken the agent leaves its event loop instead of waiting again. The pipe layer makes this reliable: the loss of a pipe, like the arrival of data, is always reported as a pipe event, and while a pipe is open and its input buffer has room a read is always outstanding.',
     ['schedules', 'fault_sequences'], 'any time at which the client disappears', TESTS + 'client death is not simulated.', [AG, NP, 'src/agent/EventLoop.cc'], [('pollControlPipe, serviceIo, EventLoop::run', 'src/agent')])
prop('C19', 'Plain-output sessions never emit escape sequences',
     'In a plain-output session without colour escapes the output pipes never carry an escape character, whatever the console contents, title, size changes and mouse modes; with the colour option only colour (SGR) sequences may appear. In every mode an escape character stored in a console cell is never forwarded.',
     ['inputs', 'histories', 'configurations'], 'any console contents, title and event history', TESTS + 'plain mode is not tested.', ['src/agent/Terminal.cc', AG], [('m_plainMode and m_outputColor guards', 'src/agent/Terminal.cc')])
prop('C21', 'Terminal modes are enabled and disabled in pairs',
     'A terminal mode the agent switches on it switches off again: after every request to disable mouse mode no mouse mode is left on and after every request to enable it mouse modes are on, no mode is switched on twice or off without having been on, and the cursor is hidden only when shown and shown only when hidden, so that after a request to show it the terminal shows it, whatever happened in between. In plain-output sessions no mode is ever changed.',
     ['histories'], 'any sequence of mode changes and scrapes', TESTS + 'no test inspects terminal modes.', ['src/agent/Terminal.cc', AG], [('enableMouseMode, hideTerminalCursor', 'src/agent/Terminal.cc')])
prop('C22', 'The console is never left frozen',
     'Whenever the agent freezes the console by starting a selection it unfreezes it again before returning to its event loop, on every path; freezing is never nested, an unfrozen console is never sent the key that ends a selection, and the screen buffer is never resized while the console is frozen.',
     ['histories', 'fault_sequences'], 'any path through scraping and resizing', TESTS + 'freeze behaviour is not observed.', ['src/agent/Win32Console.cc', AG, 'src/agent/Scraper.cc'], [('Win32Console::FreezeGuard, setFrozen', 'src/agent/Win32Console.cc')])
prop('C23', 'Requested sizes are bounded before use',
     'A console size received from the client, at start or by a resize request, is checked to be at least 1x1 and clamped to the supported maximum before it is narrowed to 16 bits or passed to a console call, so no request can produce a negative, zero or wrapped dimension.',
     ['inputs'], 'all 32-bit column and row counts', TESTS + 'only common sizes are used.', [AG, 'src/agent/Scraper.cc', LIB], [('std::min with MAX_CONSOLE_WIDTH/HEIGHT', AG)])
prop('C24', 'At most one status request is outstanding',
     'The agent sends a terminal status (cursor position) request only when undecodable input is waiting and no earlier request is unanswered, and then always; only an actual reply permits the next one.',
     ['histories', 'inputs'], 'any input byte stream in any chunking', TESTS + 'terminal input is not fed.', ['src/agent/ConsoleInput.cc', AG], [('m_dsrSent', 'src/agent/ConsoleInput.cc')])
prop('C25', 'Input reaches the console in order',
     'Key and mouse input decoded before an interrupt or a directly delivered key is written to the console input queue before that interrupt or key is delivered, and all decoded input is written before input processing returns, so no decoded input is reordered or dropped.',
     ['inputs', 'histories'], 'any input byte stream in any chunking', TESTS + 'terminal input is not fed.', ['src/agent/ConsoleInput.cc'], [('flushInputRecords before GenerateConsoleCtrlEvent / SendMessage', 'src/agent/ConsoleInput.cc')])
prop('C26', 'Synthesised key presses are balanced',
     'Every modifier key-down the agent synthesises for a key press is followed, after the key itself, by the matching key-up in reverse order with the modifier state shrinking accordingly, so that after any input the modifier state seen by the child is empty again.',
     ['inputs'], 'every key and modifier combination', TESTS + 'key synthesis is not tested.', ['src/agent/ConsoleInput.cc'], [('appendKeyPress', 'src/agent/ConsoleInput.cc')])
prop('C27', 'Malformed messages are rejected without over-reading',
     'Decoding a message of any length and content never reads outside the received bytes and never allocates more than the message could contain: a field is read only after checking that all its bytes are present, otherwise decoding stops with a decode error, which the library reports as a failure and which ends the agent. A packet length field is validated before it is used.',
     ['inputs'], 'any byte sequence received on a control pipe', TESTS + 'only well-formed packets are exchanged.', ['src/shared/Buffer.cc', LIB, AG], [('ReadBuffer::getRawData, getWString, assertEof', 'src/shared/Buffer.cc')])
prop('C28', 'Reported OS errors belong to the call that failed',
     'When a public call or message reports a Windows error number it is the one set by the operation that failed: no other call that may change the last error happens between the failing operation and the reading of its error, and tracing leaves the last error unchanged.',
     ['fault_sequences', 'configurations'], 'every failing Windows call, with and without tracing', TESTS + 'failing calls are not injected.', [LIB, 'src/shared'], [('PreserveLastError in trace, immediate GetLastError capture', 'src/shared/DebugClient.cc')])
prop('C30', 'Configuration objects keep no caller memory',
     'The library never retains a pointer to caller-supplied memory: after a public function returns, the strings, environment blocks and configuration objects passed to it may be changed or freed without affecting any session or configuration object, and strings returned by the library stay valid until their object is freed.',
     ['histories'], 'any use or release of the caller\'s memory after the call', TESTS + 'buffers stay alive in the tests.', [LIB], [('std::wstring copies in winpty_spawn_config_new, winpty_open', LIB)])
prop('C31', 'Pipe data is delivered exactly once and in order',
     'The bytes the agent writes to a pipe are exactly those queued, each once and in order, and the bytes it hands to its readers are exactly those received: the amount taken from the queue equals the amount copied and the amount written, and no chunk exceeds the transfer buffer.',
     ['schedules', 'inputs'], 'any chunking of reads and writes', TESTS + 'large transfers and back-pressure are not tested.', [NP], [('OutputWorker::shouldIssueIo, InputWorker::completeIo, read/peek', NP)])
prop('C32', 'The adapter restores the user\'s terminal',
     'Whenever the Unix adapter ends in an ordinary way (by returning from main or by calling exit) after it has put the terminal into raw mode, it has restored the modes saved before any change, to the same descriptors and after the worker threads using them have stopped. Descriptors that are not terminals are left untouched. Deliberate aborts, and failures of the terminal calls themselves, are not covered.',
     ['fault_sequences', 'schedules'], 'any order of child exit, end of input and errors', TESTS + 'the adapter cannot run here.', ['src/unix-adapter/main.cc'], [('setRawTerminalMode, restoreTerminalMode', 'src/unix-adapter/main.cc')])
prop('C33', 'The adapter\'s signal handler is async-signal-safe',
     'Everything the adapter\'s window-size signal handler can execute, from the moment it is installed, is restricted to async-signal-safe operations on descriptors prepared beforehand that cannot block. It never retries on a full descriptor, never ends the program, and leaves errno as it found it.',
     ['schedules'], 'a signal arriving at any instruction', TESTS + 'signals are not sent.', ['src/unix-adapter/main.cc', 'src/unix-adapter/WakeupFd.cc'], [('terminalResized, WakeupFd::set', 'src/unix-adapter')])
prop('C34', 'The adapter forwards all data',
     'The adapter forwards every byte it reads, once and in order: output read from the session is written completely to the terminal, continuing after partial writes and interruptions, and input is passed on with exactly the length that was read. A worker ends only at the end of its input, on an error or when it is asked to, never misses such a request by waiting after it has consumed the wakeup, and always records that it has ended before it wakes the main thread.',
     ['schedules', 'fault_sequences'], 'any partial write, interruption or error', TESTS + 'the adapter cannot run here.', ['src/unix-adapter'], [('writeAll, OutputHandler, InputHandler', 'src/unix-adapter')])
prop('C35', 'Child exit status is passed through by the adapter',
     'The Unix adapter obtains the exit code of the child it started, after the output has been drained and the workers have stopped, and ends with exactly that code as its status; where the code cannot be obtained it reports a failure. A failed start is reported with a message and a failure status, without the terminal modes having been changed.',
     ['histories'], 'any child exit code and any start failure', TESTS + 'the adapter cannot run here.', ['src/unix-adapter/main.cc'], [('main', 'src/unix-adapter/main.cc')])
prop('C36', 'No wakeup or terminal size is lost by the adapter',
     'Each time the Unix adapter\'s main thread has been woken it consumes the wakeups first and only then looks at the size of the terminal and at whether each worker has ended, before it waits again, so that no resize signal and no ending worker goes unnoticed. Before it waits, the session has been given the size last read from the terminal, and it is never given a size that was not read from there.',
     ['schedules', 'histories'], 'a resize or the end of a worker at any moment', TESTS + 'the adapter cannot run here.', ['src/unix-adapter/main.cc'], [('main', 'src/unix-adapter/main.cc')])
prop('C40', 'The screen scraper reproduces the console contents exactly',
     'After output settles the terminal shows exactly the text and colours of the console window, with every scrolled-off line sent exactly once.',
     ['inputs', 'histories'], 'any console output history', 'Screen contents and scrolling depend on the timing of console updates.', ['src/agent/Scraper.cc'], [('Scraper', 'src/agent/Scraper.cc')],
     na='the claim relates unbounded runtime console contents and scroll history to the emitted bytes; no sound static argument in reach bounds them (the line-buffer state machine quantifies over cell values and sync-marker positions)')
prop('C41', 'Command lines survive quoting',
     'The Windows command line the Unix adapter builds from an argument vector is split back into exactly that vector by the standard Windows rules.',
     ['inputs'], 'all argument vectors', 'Quoting is not tested.', ['src/unix-adapter/main.cc'], [('argvToCommandLine', 'src/unix-adapter/main.cc')],
     na='an inductive equivalence between a string-building loop and an external parser specification; it needs a functional-correctness proof or testing, not a dataflow or typestate argument')
prop('C42', 'UTF-8 and UTF-16 conversion is exact',
     'Encoding and decoding of every code point agree with the Unicode standard and reject every ill-formed sequence.',
     ['inputs'], 'all code points and byte sequences', 'The existing test already enumerates the whole domain.', ['src/shared/UnixCtrlChars.h', 'src/agent/UnicodeEncoding.h'], [('encodeUtf8, decodeUtf8', 'src/agent/UnicodeEncoding.h')],
     na='the domain is already enumerated exhaustively by the repository\'s own test; a static argument would only restate the arithmetic')
prop('C43', 'Output latency is bounded',
     'Console output reaches the client within a bounded delay.', ['schedules'], 'all schedules', 'Timing is not asserted.', ['src/agent/EventLoop.cc'], [('poll interval', 'src/agent/EventLoop.cc')],
     na='a real-time bound depends on the scheduler, the console host and the client draining its pipe, none of which the source determines')
