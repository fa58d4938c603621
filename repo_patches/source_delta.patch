From b64f3cdf5be85447994d37a346f7c6a3ede1669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 01/32] fix: receive NegotiateProtocolVersion as what it is

RecvMessage parsed it as a NoticeResponse, which always failed.
---
 pkg/pg/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..4cae06d 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -38,7 +38,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From e45aff5b011a90305385927e5b24948f48888d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 02/32] fix: reject negative and impossible counts and sizes

They made the decoder panic or allocate gigabytes for a few received bytes.
---
 pkg/pg/data_row_message.go                   | 5 +++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/read_buffer.go                        | 2 +-
 pkg/pg/row_description_message.go            | 5 +++++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..6ff0ab2 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,11 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	// Every column takes at least 4 bytes
+	if valuesCount < 0 || int(valuesCount) > messageData.Len()/4 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..1d997db 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least 1 byte
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..a42883b 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,7 +32,7 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..ddaea3a 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,11 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	// Every field takes at least 19 bytes
+	if fieldsCount < 0 || int(fieldsCount) > messageData.Len()/19 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From 01ac0ffee62a698541975e80151062a83e100c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 03/32] fix: reject frames whose length does not count itself

Such a header was accepted as a frame with an empty body.
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e8e1e3 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself so it cannot be less than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..4963675 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself so it cannot be less than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From fb581097f684fdf87004c59e2d54062a83fc722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 04/32] fix: reject messages with trailing bytes

The parsers ignored them, so relaying such a message silently altered it.
---
 pkg/pg/authentication_request_message.go     | 5 +++++
 pkg/pg/backend_key_data_message.go           | 5 +++++
 pkg/pg/command_complete_message.go           | 5 +++++
 pkg/pg/data_row_message.go                   | 5 +++++
 pkg/pg/error_response_message.go             | 5 +++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/notice_response_message.go            | 5 +++++
 pkg/pg/parameter_status_message.go           | 5 +++++
 pkg/pg/password_message.go                   | 5 +++++
 pkg/pg/query_message.go                      | 5 +++++
 pkg/pg/ready_for_query_message.go            | 5 +++++
 pkg/pg/row_description_message.go            | 5 +++++
 pkg/pg/startup_message.go                    | 5 +++++
 13 files changed, 65 insertions(+)

diff --git a/pkg/pg/authentication_request_message.go b/pkg/pg/authentication_request_message.go
index fed1b9e..5848bcf 100644
--- a/pkg/pg/authentication_request_message.go
+++ b/pkg/pg/authentication_request_message.go
@@ -125,6 +125,11 @@ func ParseAuthenticationRequestMessage(frame Frame) (AuthenticationRequestMessag
 		}
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return message, nil
 }
 
diff --git a/pkg/pg/backend_key_data_message.go b/pkg/pg/backend_key_data_message.go
index 8aea090..04560c7 100644
--- a/pkg/pg/backend_key_data_message.go
+++ b/pkg/pg/backend_key_data_message.go
@@ -37,6 +37,11 @@ func ParseBackendKeyDataMessage(frame Frame) (*BackendKeyDataMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &BackendKeyDataMessage{ProcessID: processID, Key: key}, nil
 }
 
diff --git a/pkg/pg/command_complete_message.go b/pkg/pg/command_complete_message.go
index 1acfcc6..9a5a7ae 100644
--- a/pkg/pg/command_complete_message.go
+++ b/pkg/pg/command_complete_message.go
@@ -27,6 +27,11 @@ func ParseCommandCompleteMessage(frame Frame) (*CommandCompleteMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &CommandCompleteMessage{Tag: tag}, nil
 }
 
diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 6ff0ab2..5222f51 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -54,6 +54,11 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		}
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &DataRowMessage{Values: values}, nil
 }
 
diff --git a/pkg/pg/error_response_message.go b/pkg/pg/error_response_message.go
index c49af26..fd2e6d7 100644
--- a/pkg/pg/error_response_message.go
+++ b/pkg/pg/error_response_message.go
@@ -48,6 +48,11 @@ func ParseErrorResponseMessage(frame Frame) (*ErrorResponseMessage, error) {
 		})
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ErrorResponseMessage{fields}, nil
 }
 
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 1d997db..8387017 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -53,6 +53,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		}
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &NegotiateProtocolVersionMessage{
 		SupportedProtocolVersion: supportedProtocol,
 		UnrecognizedOptions:      unrecognizedOptions,
diff --git a/pkg/pg/notice_response_message.go b/pkg/pg/notice_response_message.go
index 3d60829..b39ba94 100644
--- a/pkg/pg/notice_response_message.go
+++ b/pkg/pg/notice_response_message.go
@@ -48,6 +48,11 @@ func ParseNoticeResponseMessage(frame Frame) (*NoticeResponseMessage, error) {
 		})
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &NoticeResponseMessage{fields}, nil
 }
 
diff --git a/pkg/pg/parameter_status_message.go b/pkg/pg/parameter_status_message.go
index a98fb8c..bce4aaa 100644
--- a/pkg/pg/parameter_status_message.go
+++ b/pkg/pg/parameter_status_message.go
@@ -36,6 +36,11 @@ func ParseParameterStatusMessage(frame Frame) (*ParameterStatusMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ParameterStatusMessage{name, value}, nil
 }
 
diff --git a/pkg/pg/password_message.go b/pkg/pg/password_message.go
index 5e03901..b339458 100644
--- a/pkg/pg/password_message.go
+++ b/pkg/pg/password_message.go
@@ -27,6 +27,11 @@ func ParsePasswordMessage(frame Frame) (*PasswordMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &PasswordMessage{password}, nil
 }
 
diff --git a/pkg/pg/query_message.go b/pkg/pg/query_message.go
index 82e7ed6..51279af 100644
--- a/pkg/pg/query_message.go
+++ b/pkg/pg/query_message.go
@@ -27,6 +27,11 @@ func ParseQueryMessage(frame Frame) (*QueryMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &QueryMessage{query}, nil
 }
 
diff --git a/pkg/pg/ready_for_query_message.go b/pkg/pg/ready_for_query_message.go
index 3a53525..4f0190b 100644
--- a/pkg/pg/ready_for_query_message.go
+++ b/pkg/pg/ready_for_query_message.go
@@ -36,6 +36,11 @@ func ParseReadyForQueryMessage(frame Frame) (*ReadyForQueryMessage, error) {
 		return nil, err
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ReadyForQueryMessage{TxStatus: TxStatus(status)}, nil
 }
 
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ddaea3a..de96e9c 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -126,6 +126,11 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		}
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &RowDescriptionMessage{Fields: fields}, nil
 }
 
diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..209ad0f 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -60,6 +60,11 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 		}
 	}
 
+	// Nothing may follow
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	message := &StartupMessage{
 		ProtocolVersion: protocolVersion,
 		Parameters:      parameters,
-- 
2.43.0


From 05edcd1ac92de38a15bc3fb639fb116f41d7ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 05/32] fix: keep the terminator of a start-up message without
 parameters

Such a message was serialised one byte shorter than it was received.
---
 pkg/pg/startup_message.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 209ad0f..e465c91 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -38,6 +38,9 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 
 	// NB: startup message won't contain any parameters if this is SSL negotiation message
 	if messageData.Len() > 0 {
+		// Not nil: an empty dictionary still has the ending \0
+		parameters = []*StartupMessageParameter{}
+
 		// Dictionary encoded as tuples of strings + ending \0
 		for {
 			key, err := messageData.ReadString()
@@ -79,17 +82,14 @@ func (m *StartupMessage) Frame() Frame {
 
 	messageBuffer.WriteInt32(m.ProtocolVersion)
 
-	hasParams := false
-
 	// Dictionary is encoded as string key-value pair + ending /0x00
 	for _, param := range m.Parameters {
 		messageBuffer.WriteString(param.Name)
 		messageBuffer.WriteString(param.Value)
-
-		hasParams = true
 	}
 
-	if hasParams {
+	// SSL negotiation message doesn't have the dictionary at all
+	if m.Parameters != nil {
 		messageBuffer.WriteByte(0)
 	}
 
-- 
2.43.0


From 3903eb9fd36237ef627573b4545331eb876dff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 06/32] fix: receive SASL and GSS authentication messages

They have no type of their own and were refused, which ended the session.
---
 pkg/pg/conn.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 4cae06d..63b08d8 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,7 @@
 package pg
 
 import (
+	"errors"
 	"net"
 )
 
@@ -35,7 +36,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
-		return ParseAuthenticationRequestMessage(frame)
+		return parseAuthenticationRequest(frame)
 
 	case NegotiateProtocolVersionMessageType:
 		return ParseNegotiateProtocolVersionMessage(frame)
@@ -47,7 +48,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseParameterStatusMessage(frame)
 
 	case PasswordMessageType:
-		return ParsePasswordMessage(frame)
+		return parsePassword(frame)
 
 	case ReadyForQueryMessageType:
 		return ParseReadyForQueryMessage(frame)
@@ -81,6 +82,30 @@ func (h *Conn) RecvMessage() (Message, error) {
 	}
 }
 
+// parseAuthenticationRequest parses AuthenticationRequest message from a network frame.
+// We don't have types for all the authentication methods (e.g. SASL): such requests are generic messages.
+func parseAuthenticationRequest(frame Frame) (Message, error) {
+	message, err := ParseAuthenticationRequestMessage(frame)
+
+	if errors.Is(err, ErrunsupportedAuthenticationRequest) {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, err
+}
+
+// parsePassword parses PasswordMessage from a network frame. SASL and GSS responses share its message type
+// but have different contents: they are generic messages.
+func parsePassword(frame Frame) (Message, error) {
+	message, err := ParsePasswordMessage(frame)
+
+	if err != nil {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, nil
+}
+
 // SendMessage sends given message over the network.
 func (h *Conn) SendMessage(msg Message) error {
 	_, err := h.conn.Write(msg.Frame().Bytes())
-- 
2.43.0


From 1dc000c8570b0218f0c30a9223ff01d45c6ad803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 07/32] fix: do not decode client messages as database messages

Sync, Describe, Execute and Close share their types with ParameterStatus, DataRow, ErrorResponse
and CommandComplete, so the extended query protocol ended the session or was garbled.
---
 pkg/pg/conn.go        | 24 ++++++++++++++++++++++++
 pkg/server/session.go |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 63b08d8..2034684 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -82,6 +82,30 @@ func (h *Conn) RecvMessage() (Message, error) {
 	}
 }
 
+// RecvFrontendMessage receives a message that a client sends to the database. Many message types have
+// a different meaning when they are sent by the database (e.g. 'D' is Describe but also DataRow).
+func (h *Conn) RecvFrontendMessage() (Message, error) {
+	frame, err := ReadStandardFrame(h.conn)
+
+	if err != nil {
+		return nil, err
+	}
+
+	switch frame.MessageType() {
+	case PasswordMessageType:
+		return parsePassword(frame)
+
+	case QueryMessageType:
+		return ParseQueryMessage(frame)
+
+	case TerminateMessageType:
+		return ParseTerminateMessage(frame)
+
+	default:
+		return ParseGenericMessage(frame)
+	}
+}
+
 // parseAuthenticationRequest parses AuthenticationRequest message from a network frame.
 // We don't have types for all the authentication methods (e.g. SASL): such requests are generic messages.
 func parseAuthenticationRequest(frame Frame) (Message, error) {
diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..d20721f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -230,7 +230,7 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
 	for {
-		message, err := s.clientConn.RecvMessage()
+		message, err := s.clientConn.RecvFrontendMessage()
 
 		if err != nil {
 			return err
-- 
2.43.0


From ce941fba10f421ba47b1a7ea315a881bfc3460d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 08/32] fix: resolve database name of a URI from all its parts

The dbname parameter was ignored, the default name did not follow an overridden user, leading
slashes were stripped from decoded names, an empty user was kept and malformed query parameters
were dropped silently.
---
 pkg/pg/dsn.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..306ccef 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -24,11 +24,19 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		return nil, fmt.Errorf("invalid PostgreSQL database URI %s", url)
 	}
 
+	query, err := parseQuery(url.RawQuery)
+
+	if err != nil {
+		return nil, err
+	}
+
 	settings := defaultConnectionSettings()
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
 		if password, present := url.User.Password(); present {
 			settings["password"] = password
@@ -46,20 +54,35 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	}
 
 	// Database name
-	if database := strings.TrimLeft(url.Path, "/"); database != "" {
+	if database := strings.TrimPrefix(url.Path, "/"); database != "" {
 		settings["database"] = database
 	} else {
-		// Default is the same as database user
-		settings["database"] = settings["user"]
+		// We don't know the user yet: it can be overridden by the query
+		delete(settings, "database")
 	}
 
-	for k, v := range url.Query() {
+	for k, v := range query {
 		settings[k] = v[0]
 	}
 
+	// That is how libpq calls the database
+	if database := query.Get("dbname"); database != "" {
+		settings["database"] = database
+	}
+
+	if settings["database"] == "" {
+		// Default is the same as database user
+		settings["database"] = settings["user"]
+	}
+
 	return settings, nil
 }
 
+// parseQuery parses the query part of a URI. Unlike URL.Query() it doesn't ignore malformed parameters.
+func parseQuery(query string) (url.Values, error) {
+	return url.ParseQuery(query)
+}
+
 // defaultConnectionSettings returns PostgreSQL implicit default connection settings.
 func defaultConnectionSettings() ConnectionParams {
 	settings := ConnectionParams{
-- 
2.43.0


From 69e5fe16c3093ecded95e975d9121290c1c0d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 09/32] fix: use the last of repeated start-up parameters like
 PostgreSQL does

The database gate looked at the first "database" parameter while PostgreSQL
connects to the last one, so a client could reach any database.
---
 pkg/pg/startup_message.go | 7 +++++--
 pkg/server/session.go     | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index e465c91..baf80a5 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -97,12 +97,15 @@ func (m *StartupMessage) Frame() Frame {
 }
 
 // GetParameter returns parameter value by its name. If parameter is not set it returns an empty string.
+// Like in PostgreSQL, the last of repeated parameters counts.
 func (m *StartupMessage) GetParameter(name string) string {
+	value := ""
+
 	for _, param := range m.Parameters {
 		if param.Name == name {
-			return param.Value
+			value = param.Value
 		}
 	}
 
-	return ""
+	return value
 }
diff --git a/pkg/server/session.go b/pkg/server/session.go
index d20721f..6b8fc87 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -184,7 +184,7 @@ func (s *Session) negotiateSessionParams() error {
 		return err
 	}
 
-	if dbName := startupMessage.GetParameter("database"); dbName != allowedDB {
+	if dbName := startupMessage.GetParameter("database"); dbName == "" || dbName != allowedDB {
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
-- 
2.43.0


From 96ff4fda119b6f214dc48457bf33974ce4d9316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:16 +0000
Subject: [PATCH 10/32] fix: allow only one SSL request per session

Every further request was answered in a nested call, until the stack overflow
killed the process.
---
 pkg/server/session.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 6b8fc87..2068a26 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -168,8 +168,12 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		// SSL can be requested only once: the second request is refused like any other unknown protocol version
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 20735eb452ba340d8f94b6bfd46077b3f80354e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 11/32] fix: end a session when either side hangs up

When the client or the database hung up only its in pump stopped: the session
stayed with its goroutines and the other connection forever, and what the
out pumps did on Close was a send on a closed channel. Now the end of a stream
is passed on after everything that was received, and the two directions don't
wait for each other in a common processing goroutine.
---
 pkg/server/session.go | 136 ++++++++++++++++++++----------------------
 1 file changed, 66 insertions(+), 70 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 2068a26..d1c8ba6 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -3,7 +3,9 @@ package server
 import (
 	"errors"
 	"fmt"
+	"io"
 	"net"
+	"strings"
 	"sync"
 
 	log "github.com/sirupsen/logrus"
@@ -96,9 +98,10 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
-	// Wait for the first error (or successful exit)
+	// Wait for all of them; when one side hangs up, everything it has sent is delivered to the other side first
 	err = g.Wait()
 
 	if err != nil {
@@ -135,14 +138,6 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
-
 	return
 }
 
@@ -233,94 +228,95 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
-	for {
-		message, err := s.clientConn.RecvFrontendMessage()
-
-		if err != nil {
-			return err
-		}
-
-		s.clientIn <- message
-	}
+	return pumpIn(s.clientConn.RecvFrontendMessage, s.clientIn)
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
 func (s *Session) startClientOutPump() error {
-	for {
-		// Get next message in queue
-		message, ok := <-s.clientOut
-
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
+	return pumpOut(s.clientOut, s.clientConn)
+}
 
-		// Send the message over the network
-		err := s.clientConn.SendMessage(message)
+// startDBInPump pumps messages from the database into the dbIn channel.
+func (s *Session) startDBInPump() error {
+	return pumpIn(s.dbConn.RecvMessage, s.dbIn)
+}
 
-		if err != nil {
-			return err
-		}
-	}
+// startDBOutPump pumps messages from the dbOut channel to the database.
+func (s *Session) startDBOutPump() error {
+	return pumpOut(s.dbOut, s.dbConn)
 }
 
-// startClientOutPump pumps messages from the database into the dbIn channel.
-func (s *Session) startDBInPump() error {
-	for {
-		message, err := s.dbConn.RecvMessage()
+// startClientProcessing dispatches messages from the client to the database.
+func (s *Session) startClientProcessing() error {
+	// This will stop the out pump
+	defer close(s.dbOut)
 
-		if err != nil {
-			return err
-		}
+	// FIXME: temporary just proxy everything from the client to the database
+	for clientMsg := range s.clientIn {
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-		s.dbIn <- message
+		s.dbOut <- clientMsg
 	}
-}
 
-// startDBOutPump pumps messages from the dbOut channel to the database.
-func (s *Session) startDBOutPump() error {
-	for {
-		// Get next message in queue
-		message, ok := <-s.dbOut
+	return nil
+}
 
-		// Channel is closed — exit
-		if !ok {
-			return nil
-		}
+// startDBProcessing dispatches messages from the database to the client. It doesn't share a goroutine with
+// startClientProcessing because none of the directions may wait for the other one.
+func (s *Session) startDBProcessing() error {
+	// This will stop the out pump
+	defer close(s.clientOut)
 
-		// Send the message over the network
-		err := s.dbConn.SendMessage(message)
+	// FIXME: temporary just proxy everything from the database to the client
+	for dbMsg := range s.dbIn {
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
 
-		if err != nil {
-			return err
-		}
+		s.clientOut <- dbMsg
 	}
+
+	return nil
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
+// pumpIn pumps received messages into the channel until the peer hangs up. Then it closes the channel.
+func pumpIn(recv func() (pg.Message, error), ch chan<- pg.Message) error {
+	defer close(ch)
+
 	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
+		message, err := recv()
+
+		if err != nil {
+			// The peer or we hung up
+			if err == io.EOF || strings.Contains(err.Error(), "use of closed network connection") {
 				return nil
 			}
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+			return err
+		}
 
-			s.dbOut <- clientMsg
+		ch <- message
+	}
+}
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+// pumpOut pumps messages from the channel to the network connection until the channel is closed.
+// Then it closes the connection.
+func pumpOut(ch <-chan pg.Message, conn *pg.Conn) (err error) {
+	defer conn.Close()
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+	for message := range ch {
+		// The connection is broken: drop the rest to not block the sender
+		if err != nil {
+			continue
+		}
+
+		// Send the message over the network
+		err = conn.SendMessage(message)
 
-			s.clientOut <- dbMsg
+		if err != nil {
+			_ = conn.Close()
 		}
 	}
+
+	return err
 }
 
 // getDBConnnectionParam returns connection parameter with given name from the config.
-- 
2.43.0


From 76f3f826169cefc750c13688f2511b00366ea9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 12/32] fix: close the database connection of a session closed
 while connecting

Close could miss the connection, which then stayed open, and it did not stop
a pending dial, so that Server.Close ran into its watchdog.
---
 pkg/server/session.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index d1c8ba6..80887e3 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"io"
@@ -25,6 +26,9 @@ type Session struct {
 	// Connection from a client to the Gevulot
 	clientConn *pg.Conn
 
+	// Guards dbConn while Close can be called concurrently
+	dbConnMu sync.Mutex
+
 	// Connection from the Gevulot to the database
 	dbConn *pg.Conn
 
@@ -132,6 +136,9 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
 	if s.dbConn != nil {
 		err = s.dbConn.Close()
 
@@ -206,15 +213,38 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 		return err
 	}
 
+	// Stop connecting when the session is closed
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	go func() {
+		select {
+		case <-s.closed.Done():
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	var dialer net.Dialer
+
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
-	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	s.dbConnMu.Lock()
+	{
+		// Convert to pg.NewConn
+		s.dbConn = pg.NewConn(conn)
+
+		// Close didn't see the connection if it has been called meanwhile
+		if s.closed.HasFired() {
+			_ = s.dbConn.Close()
+		}
+	}
+	s.dbConnMu.Unlock()
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
-- 
2.43.0


From 90dd6efb558b17b90ebae395a4c63e8b8adcfb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 13/32] fix: don't wait for a config in a closed session

A session of a server without a config could not be closed: Server.Close ran
into its watchdog and panicked.
---
 pkg/server/session.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 80887e3..e9c085e 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -356,8 +356,7 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
-		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		config, err := s.waitForConfig()
 
 		if err != nil {
 			return "", err
@@ -373,3 +372,27 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	return s.dbConnectionParams[name], nil
 }
+
+// waitForConfig returns the current config. It returns an error if the session is closed before there is one.
+func (s *Session) waitForConfig() (*Config, error) {
+	type result struct {
+		config *Config
+		err    error
+	}
+
+	ready := make(chan result, 1)
+
+	go func() {
+		// Get() will block until we have a config
+		config, err := s.cfg.Get()
+		ready <- result{config, err}
+	}()
+
+	select {
+	case r := <-ready:
+		return r.config, r.err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
-- 
2.43.0


From 2adc3182de59ece8e74712f1440d058c5224698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 14/32] fix: don't let subscribers block the configuration
 distributor

Configs were sent to the subscribed channels with the mutex held: Get waits
for the first config on such a channel and could deadlock with the update,
and a subscriber that doesn't read blocked Get, Unsubscribe and Close for all
others. Also nothing stopped an update being sent to a channel after Close.
---
 pkg/server/config_distributor.go | 121 +++++++++++++++++++++++++++----
 1 file changed, 108 insertions(+), 13 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..e436ea1 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -43,7 +43,32 @@ type ConfigDistributor struct {
 	lastConfig *Config
 
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription delivers Config updates to a subscribed channel. It has its own queue and goroutine,
+// so a subscriber that doesn't read its channel doesn't block the distributor.
+type configSubscription struct {
+	// Subscribed channel
+	ch chan<- *Config
+
+	// Predicates to select relevant updates
+	checks []ConfigChangedCheckFn
+
+	// Guards queue
+	mu sync.Mutex
+
+	// Updates that are not delivered yet
+	queue []*Config
+
+	// Has a value when something has been added to the queue
+	wakeUp chan struct{}
+
+	// Fired when the subscription is canceled
+	canceled *Event
+
+	// Closed when the delivery goroutine is finished
+	done chan struct{}
 }
 
 var (
@@ -98,17 +123,27 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	// Send current config immediately even before we registered a new subscription
+	// It could be closed while we were waiting for the lock
+	if p.closed.HasFired() {
+		return ErrConfigDistributorClosed
+	}
+
+	// A new subscription replaces the previous one of the same channel
+	p.unsubscribeLocked(ch)
+
+	subscription := newConfigSubscription(ch, checks)
+
+	// Send current config immediately
 	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+		subscription.send(p.lastConfig)
 	}
 
 	// Register subscription
 	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+		p.subscriptions = make(map[chan<- *Config]*configSubscription)
 	}
 
-	p.subscriptions[ch] = checks
+	p.subscriptions[ch] = subscription
 
 	// Start monitoring goroutine
 	if p.started.Fire() {
@@ -118,7 +153,7 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 	return nil
 }
 
-// Unsubscribe cancels subscription for the given channel.
+// Unsubscribe cancels subscription for the given channel. Nothing is sent to the channel after Unsubscribe returned.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -128,9 +163,7 @@ func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
 func (p *ConfigDistributor) Close() {
-	if !p.closed.Fire() {
-		return
-	}
+	p.closed.Fire()
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -142,7 +175,10 @@ func (p *ConfigDistributor) Close() {
 
 // unsubscribeLocked unsubscribes the channel without locking the mutex.
 func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
-	delete(p.subscriptions, ch)
+	if subscription, ok := p.subscriptions[ch]; ok {
+		subscription.cancel()
+		delete(p.subscriptions, ch)
+	}
 }
 
 // waitForNextConfig waits for the next received Config update from the source and then returns it.
@@ -205,9 +241,9 @@ func (p *ConfigDistributor) monitorConfig() {
 
 // notifySubscribersLocked notifies subscribers about config changes.
 func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+	for _, subscription := range p.subscriptions {
+		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
+			subscription.send(newConfig)
 		}
 	}
 }
@@ -228,3 +264,62 @@ func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckF
 
 	return false
 }
+
+// newConfigSubscription initializes a new configSubscription and starts its delivery goroutine.
+func newConfigSubscription(ch chan<- *Config, checks []ConfigChangedCheckFn) *configSubscription {
+	s := &configSubscription{
+		ch:       ch,
+		checks:   checks,
+		wakeUp:   make(chan struct{}, 1),
+		canceled: NewEvent(),
+		done:     make(chan struct{}),
+	}
+
+	go s.deliver()
+
+	return s
+}
+
+// send queues the config for delivery. It never blocks.
+func (s *configSubscription) send(config *Config) {
+	s.mu.Lock()
+	s.queue = append(s.queue, config)
+	s.mu.Unlock()
+
+	select {
+	case s.wakeUp <- struct{}{}:
+	default:
+	}
+}
+
+// cancel stops the delivery and waits until it is stopped.
+func (s *configSubscription) cancel() {
+	s.canceled.Fire()
+	<-s.done
+}
+
+// deliver sends queued configs to the subscribed channel one by one.
+func (s *configSubscription) deliver() {
+	defer close(s.done)
+
+	for {
+		s.mu.Lock()
+		queue := s.queue
+		s.queue = nil
+		s.mu.Unlock()
+
+		for _, config := range queue {
+			select {
+			case s.ch <- config:
+			case <-s.canceled.Done():
+				return
+			}
+		}
+
+		select {
+		case <-s.wakeUp:
+		case <-s.canceled.Done():
+			return
+		}
+	}
+}
-- 
2.43.0


From 8fe7fa4c28eaf7b795957028700f99d6be7c208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 15/32] fix: refuse listeners and connections while the server
 is being closed

The shutdown check was made before taking the mutex, so a listener or a
session could be registered after Close had closed all of them, and a refused
connection or listener was left open.
---
 pkg/server/server.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..175b586 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -112,7 +112,10 @@ func (srv *Server) Start() error {
 			}
 
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			if err := srv.do(func() { _ = srv.Serve(ln) }); err != nil {
+				_ = ln.Close()
+				return err
+			}
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -131,6 +134,7 @@ func (srv *Server) Serve(ln net.Listener) error {
 	err := srv.changeListener(ln)
 
 	if err != nil {
+		_ = ln.Close()
 		log.Errorf("server: error has been occurred while changing listeners: %v", err)
 		return err
 	}
@@ -166,7 +170,10 @@ func (srv *Server) Serve(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		if err := srv.do(func() { _ = srv.ServeConn(conn) }); err != nil {
+			_ = conn.Close()
+			return err
+		}
 	}
 }
 
@@ -175,11 +182,6 @@ func (srv *Server) Serve(ln net.Listener) error {
 // ServeConn blocks, serving the connection until the client or the database hangs up.
 // The caller typically invokes ServeConn in a go statement.
 func (srv *Server) ServeConn(conn net.Conn) error {
-	// Return error if server is closed
-	if srv.shutdown.HasFired() {
-		return ErrServerClosed
-	}
-
 	// For debugging purposes
 	defer log.Debugf("serve: ServeConn() for %s exited", conn.RemoteAddr().String())
 
@@ -192,6 +194,7 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 
@@ -264,14 +267,14 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -289,25 +292,35 @@ func (srv *Server) changeListener(ln net.Listener) error {
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
 // before the server is shutdown.
-func (srv *Server) do(f func()) {
+func (srv *Server) do(f func()) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Close doesn't expect new goroutines
+	if srv.shutdown.HasFired() {
+		return ErrServerClosed
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return nil
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From 7be366f9782a9f387e3f9c572d07e6749420143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 16/32] fix: unsubscribe from the configuration when the server
 is closed

The channel was closed while still subscribed: the next configuration change
was a send on a closed channel, which killed the process.
---
 pkg/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 175b586..45b7cb2 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,7 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-- 
2.43.0


From ff7e66fb4d17b635576f694923516e8d4ec59033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 17/32] fix: change listeners in the order of configuration
 updates

Every listener was installed by its own goroutine, so after quick changes the
server could end up on an older address.
---
 pkg/server/server.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 45b7cb2..7b2b26f 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -111,12 +111,17 @@ func (srv *Server) Start() error {
 				continue
 			}
 
-			// Serve the new listener
-			if err := srv.do(func() { _ = srv.Serve(ln) }); err != nil {
+			// NB: listeners must be changed here, in the order of config updates
+			if err := srv.changeListener(ln); err != nil {
 				_ = ln.Close()
 				return err
 			}
 
+			// Serve the new listener
+			if err := srv.do(func() { _ = srv.serve(ln) }); err != nil {
+				return err
+			}
+
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
 			return ErrServerClosed
@@ -139,6 +144,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.serve(ln)
+}
+
+// serve calls ServeConn for every client connection accepted by the current listener.
+func (srv *Server) serve(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 1806f009172b363559c1b6569c7adfc3c7d96736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 18/32] fix: try again to listen on an address that could not
 be bound before

An update with the same address was ignored even when the server was not
listening on it because it had been in use.
---
 pkg/server/server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 7b2b26f..a1ff0f1 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -86,9 +86,7 @@ func (srv *Server) Start() error {
 	serverConfigurationUpdates := make(chan *Config, 1)
 	defer srv.config.Unsubscribe(serverConfigurationUpdates)
 
-	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
-		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
-	})
+	err := srv.config.Subscribe(serverConfigurationUpdates)
 
 	if err != nil {
 		return err
@@ -97,10 +95,18 @@ func (srv *Server) Start() error {
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
+	// Config with the address that we are listening on
+	var listenConfig *Config
+
 	for {
 		select {
 		// Wait for the new config
 		case config := <-serverConfigurationUpdates:
+			// NB: the previous config could have another address that we failed to listen on
+			if listenConfig != nil && config.Listen == listenConfig.Listen {
+				continue
+			}
+
 			log.Infof("server: serving on %s", config.Listen)
 
 			// Initialize a new listener
@@ -117,6 +123,8 @@ func (srv *Server) Start() error {
 				return err
 			}
 
+			listenConfig = config
+
 			// Serve the new listener
 			if err := srv.do(func() { _ = srv.serve(ln) }); err != nil {
 				return err
-- 
2.43.0


From 1ea9efdcfe6be92f32b1b658ae4b31ce37799ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 19/32] fix: allow to change the host of the listen address and
 keep the port

The server could not bind e.g. "0.0.0.0:4242" after "127.0.0.1:4242" because
its own listener was in the way, and stayed on the old address forever.
---
 pkg/server/server.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index a1ff0f1..c54be9f 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -5,6 +5,7 @@ import (
 	"net"
 	"strings"
 	"sync"
+	"syscall"
 	"time"
 
 	log "github.com/sirupsen/logrus"
@@ -112,6 +113,23 @@ func (srv *Server) Start() error {
 			// Initialize a new listener
 			ln, err := net.Listen("tcp", config.Listen)
 
+			// Our own listener is in the way when only the host is changed (e.g. from "localhost:4242" to ":4242")
+			if errors.Is(err, syscall.EADDRINUSE) && listenConfig != nil && samePort(config.Listen, listenConfig.Listen) {
+				if err := srv.changeListener(nil); err != nil {
+					return err
+				}
+
+				ln, err = net.Listen("tcp", config.Listen)
+
+				if err != nil {
+					log.Errorf("server: can't listen on %s: %v", config.Listen, err)
+
+					// Back to the previous address
+					config, listenConfig = listenConfig, nil
+					ln, err = net.Listen("tcp", config.Listen)
+				}
+			}
+
 			if err != nil {
 				log.Errorf("server: can't listen on %s: %v", config.Listen, err)
 				continue
@@ -308,6 +326,14 @@ func (srv *Server) changeListener(ln net.Listener) error {
 	return nil
 }
 
+// samePort tells whether both addresses have the same port.
+func samePort(a, b string) bool {
+	_, portA, errA := net.SplitHostPort(a)
+	_, portB, errB := net.SplitHostPort(b)
+
+	return errA == nil && errB == nil && portA == portB
+}
+
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
 // before the server is shutdown.
 func (srv *Server) do(f func()) error {
-- 
2.43.0


From 396612e508580337e31d1b0ca3b84cf8f1063abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 20/32] fix: reload the config file when it is replaced

Watch the directory of the file instead of its inode, reload a file that has been
created again, and don't stop watching when some events are lost.
---
 pkg/cli/file_watcher.go        | 200 +++++++++++++++++++--------------
 pkg/cli/watch_server_config.go |   8 +-
 2 files changed, 122 insertions(+), 86 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..00ca584 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -1,7 +1,7 @@
 package cli
 
 import (
-	"sync"
+	"path/filepath"
 
 	"github.com/fsnotify/fsnotify"
 	log "github.com/sirupsen/logrus"
@@ -31,105 +31,135 @@ func newFileWatcher(path string) *fileWatcher {
 }
 
 // Watch starts watching for the file changes on the disk.
-// nolint:gocognit
 func (w *fileWatcher) Watch() error {
-	// We have 2 nested goroutines in this function.
-	// We use watcherError variable to pull any errors from them into the calling gorouting.
-	var watcherError error = nil
+	path, err := filepath.Abs(w.Path)
 
-	// Initialization sync group. We have to wait until the watcher starts the watching to
-	// return any possible errors.
-	initWG := sync.WaitGroup{}
-	initWG.Add(1)
+	if err != nil {
+		return err
+	}
 
-	// This goroutine starts and closes fsnotify watcher
-	go func() {
-		watcher, err := fsnotify.NewWatcher()
+	// Path without symlinks
+	realPath, err := filepath.EvalSymlinks(path)
+
+	if err != nil {
+		return err
+	}
+
+	watcher, err := fsnotify.NewWatcher()
+
+	if err != nil {
+		return err
+	}
+
+	// The file can be replaced with another one so we have to watch directories instead of the file itself
+	for _, dir := range []string{filepath.Dir(path), filepath.Dir(realPath)} {
+		err = watcher.Add(dir)
 
 		if err != nil {
-			watcherError = err
-			initWG.Done()
-			return
+			watcher.Close()
+			return err
 		}
+	}
+
+	// Channel to notify handler to stop
+	w.watchDone = make(chan bool)
+
+	go w.handleEvents(watcher, path, realPath)
+
+	return nil
+}
 
-		defer watcher.Close()
-
-		// Event loop sync group
-		eventsWG := sync.WaitGroup{}
-		eventsWG.Add(1)
-
-		// Channel to notify handler to stop
-		w.watchDone = make(chan bool)
-
-		// FS events handler
-		go func() {
-			// Continue execution of the parent goroutine
-			defer eventsWG.Done()
-
-			for {
-				select {
-				// fsnotify watcher event
-				case event, ok := <-watcher.Events:
-					// 'Events' channel is closed
-					if !ok {
-						return
-					}
-
-					// Run the callback
-					switch {
-					case event.Op&fsnotify.Create != 0:
-						if w.OnCreate != nil {
-							w.OnCreate()
-						}
-
-					case event.Op&fsnotify.Write != 0:
-						if w.OnWrite != nil {
-							w.OnWrite()
-						}
-
-					case event.Op&fsnotify.Remove != 0:
-						if w.OnRemove != nil {
-							w.OnRemove()
-						}
-					}
-
-				// fsnotify watcher error
-				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
-					}
-
-					return
-
-				// StopWatch has been called
-				case <-w.watchDone:
-					return
+// handleEvents runs the callbacks on FS events until StopWatch is called.
+func (w *fileWatcher) handleEvents(watcher *fsnotify.Watcher, path, realPath string) {
+	defer watcher.Close()
+
+	for {
+		select {
+		// fsnotify watcher event
+		case event, ok := <-watcher.Events:
+			// 'Events' channel is closed
+			if !ok {
+				return
+			}
+
+			// Do not run callbacks after StopWatch
+			if w.isStopped() {
+				return
+			}
+
+			// Check that the file is not switched to another one by the means of symlinks
+			if newRealPath, err := filepath.EvalSymlinks(path); err == nil && newRealPath != realPath {
+				realPath = newRealPath
+
+				if err := watcher.Add(filepath.Dir(realPath)); err != nil {
+					log.Errorf("file watcher error: %v", err)
 				}
+
+				if w.OnWrite != nil {
+					w.OnWrite()
+				}
+
+				continue
 			}
-		}()
 
-		// Start the watcher
-		watcherError = watcher.Add(w.Path)
+			// Ignore other files in the directory
+			if name := filepath.Clean(event.Name); name != path && name != realPath {
+				continue
+			}
 
-		// Exit from Watch
-		initWG.Done()
+			// Run the callback
+			switch {
+			case event.Op&fsnotify.Create != 0:
+				if w.OnCreate != nil {
+					w.OnCreate()
+				}
 
-		// Event loop
-		eventsWG.Wait()
+			case event.Op&fsnotify.Write != 0:
+				if w.OnWrite != nil {
+					w.OnWrite()
+				}
 
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
-	}()
+			case event.Op&fsnotify.Remove != 0:
+				if w.OnRemove != nil {
+					w.OnRemove()
+				}
+			}
 
-	// Wait for watcher to initialize
-	initWG.Wait()
+		// fsnotify watcher error
+		case err, ok := <-watcher.Errors:
+			// 'Errors' channel is closed
+			if !ok {
+				return
+			}
+
+			log.Errorf("file watcher error: %v", err)
+
+			// Some events are lost, the file could be changed
+			if err == fsnotify.ErrEventOverflow {
+				if w.OnWrite != nil && !w.isStopped() {
+					w.OnWrite()
+				}
+
+				continue
+			}
+
+			return
+
+		// StopWatch has been called
+		case <-w.watchDone:
+			return
+		}
+	}
+}
 
-	// Return initialization error if any
-	return watcherError
+// isStopped returns true after a call to StopWatch.
+func (w *fileWatcher) isStopped() bool {
+	select {
+	case <-w.watchDone:
+		return true
+	default:
+		return false
+	}
 }
 
 // StopWatch stops the file watcher.
diff --git a/pkg/cli/watch_server_config.go b/pkg/cli/watch_server_config.go
index 38816a4..aeb3137 100644
--- a/pkg/cli/watch_server_config.go
+++ b/pkg/cli/watch_server_config.go
@@ -9,7 +9,8 @@ import (
 // watchServerConfig watches for the config file and sends updated config to the given channel.
 func watchServerConfig(configPath string, configChan chan *server.Config) error {
 	watcher := newFileWatcher(configPath)
-	watcher.OnWrite = func() {
+
+	reload := func() {
 		updatedConfig, err := readServerConfig(configPath)
 
 		if err != nil {
@@ -20,5 +21,10 @@ func watchServerConfig(configPath string, configChan chan *server.Config) error
 		configChan <- updatedConfig
 	}
 
+	watcher.OnWrite = reload
+
+	// The file could be replaced with a new one
+	watcher.OnCreate = reload
+
 	return watcher.Watch()
 }
-- 
2.43.0


From ab94d37063319878c9522baadd6fbad9f7f64b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 21/32] fix: do not start without mandatory settings

---
 pkg/cli/cli.go                | 5 +++++
 pkg/cli/read_server_config.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 83f3478..9be5ee6 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -105,6 +106,10 @@ func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error
 		return nil, err
 	}
 
+	if config.DatabaseURL == "" {
+		return nil, errors.New("database-url is not specified")
+	}
+
 	configChan := make(chan *server.Config, 1)
 	configChan <- config
 
diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..b251423 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -25,5 +26,10 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// It is impossible to serve without the listen address
+	if config.Listen == "" {
+		return nil, errors.New("listen is not specified")
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 3ef37d1348269071a967a9820cd99be0bf48ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 22/32] fix: load gevulot.toml from the current directory by
 default

---
 pkg/cli/cli.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 9be5ee6..0f841e6 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -4,8 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"os"
-	"path/filepath"
 
 	log "github.com/sirupsen/logrus"
 	"gopkg.in/alecthomas/kingpin.v2"
@@ -68,7 +66,7 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 	app.Flag("config", "Set the configuration file path").
 		Short('c').
 		PlaceHolder("PATH").
-		Default(filepath.Join(filepath.Dir(os.Args[0]), "gevulot.toml")).
+		Default("gevulot.toml").
 		StringVar(&parsedArgs.configPath)
 
 	// Add --verbose flag to enable debug output
-- 
2.43.0


From 27394fb0084e906a609a8eb5532be825befb5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 23/32] fix: do not lose config updates made during the
 start-up

---
 pkg/cli/cli.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 0f841e6..45689c4 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -98,6 +98,14 @@ func (c *cli) configureLogger(verbose bool) {
 }
 
 func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error) {
+	// Start watching before the config is read so we don't miss an update
+	updates := make(chan *server.Config)
+	err := watchServerConfig(configPath, updates)
+
+	if err != nil {
+		return nil, err
+	}
+
 	config, err := readServerConfig(configPath)
 
 	if err != nil {
@@ -111,11 +119,12 @@ func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error
 	configChan := make(chan *server.Config, 1)
 	configChan <- config
 
-	err = watchServerConfig(configPath, configChan)
-
-	if err != nil {
-		return nil, err
-	}
+	// Updates follow the initial config
+	go func() {
+		for updatedConfig := range updates {
+			configChan <- updatedConfig
+		}
+	}()
 
 	return configChan, nil
 }
-- 
2.43.0


From 1093d296ddeceb952a48add89a27f44cc76e0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 24/32] fix: return an error when the table mapping is
 incomplete

---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..e541c77 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// The loop also ends when there is an error in the middle of the result
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 3c3f3f7304a9c2da85e6720a72a74fb4029cc048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 25/32] fix: read config files with CRLF newlines

---
 pkg/cli/read_server_config.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index b251423..616954e 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -2,7 +2,9 @@ package cli
 
 import (
 	"errors"
+	"io/ioutil"
 	"path/filepath"
+	"strings"
 
 	"github.com/BurntSushi/toml"
 
@@ -18,9 +20,15 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
-	// We use TOML
+	content, err := ioutil.ReadFile(absPath)
+
+	if err != nil {
+		return nil, err
+	}
+
+	// We use TOML. The library doesn't recognize CRLF in multi-line strings so we have to normalize newlines.
 	config := &server.Config{}
-	_, err = toml.DecodeFile(absPath, config)
+	_, err = toml.Decode(strings.ReplaceAll(string(content), "\r\n", "\n"), config)
 
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 683b3ffebcedd604a49caa2c72032355c32fdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:15 +0000
Subject: [PATCH 26/32] fix: do not crash on malformed config files

---
 pkg/cli/read_server_config.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index 616954e..4242cc6 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -2,6 +2,7 @@ package cli
 
 import (
 	"errors"
+	"fmt"
 	"io/ioutil"
 	"path/filepath"
 	"strings"
@@ -28,7 +29,7 @@ func readServerConfig(path string) (*server.Config, error) {
 
 	// We use TOML. The library doesn't recognize CRLF in multi-line strings so we have to normalize newlines.
 	config := &server.Config{}
-	_, err = toml.Decode(strings.ReplaceAll(string(content), "\r\n", "\n"), config)
+	err = decodeTOML(strings.ReplaceAll(string(content), "\r\n", "\n"), config)
 
 	if err != nil {
 		return nil, err
@@ -41,3 +42,16 @@ func readServerConfig(path string) (*server.Config, error) {
 
 	return config, nil
 }
+
+// decodeTOML is a wrapper around toml.Decode which panics on some malformed documents.
+func decodeTOML(data string, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed config: %v", r)
+		}
+	}()
+
+	_, err = toml.Decode(data, v)
+
+	return err
+}
-- 
2.43.0


From f989c1b040127508dc9cc8dd80117df4c1de87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:09 +0000
Subject: [PATCH 27/32] fix: do not reload a half-written config file

---
 pkg/cli/cli.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 45689c4..2328c4f 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -122,6 +122,12 @@ func (c *cli) prepareConfigChan(configPath string) (<-chan *server.Config, error
 	// Updates follow the initial config
 	go func() {
 		for updatedConfig := range updates {
+			// The file may be half-written
+			if updatedConfig.DatabaseURL == "" {
+				log.Errorf("error loading config file %s: database-url is not specified", configPath)
+				continue
+			}
+
 			configChan <- updatedConfig
 		}
 	}()
-- 
2.43.0


From 8d9edfe616cc1ed6cb75590942276a71bc355cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 28/32] fix: list tables of schemas like pgboss

The underscore of LIKE 'pg_%' matches any character.
---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index e541c77..45053a6 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,7 +60,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
+         AND n.nspname !~ '^pg_'
 		 AND c.relkind IN ('r', 'm', 'v');`,
 	)
 
-- 
2.43.0


From 70c9fb18ba98b643d93add0730f79c2465f1510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:56 +0000
Subject: [PATCH 29/32] fix: do not miss a switch of the config's symlink
 during the start-up

---
 pkg/cli/file_watcher.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 00ca584..a0f42de 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -38,27 +38,34 @@ func (w *fileWatcher) Watch() error {
 		return err
 	}
 
-	// Path without symlinks
-	realPath, err := filepath.EvalSymlinks(path)
+	watcher, err := fsnotify.NewWatcher()
 
 	if err != nil {
 		return err
 	}
 
-	watcher, err := fsnotify.NewWatcher()
+	// The file can be replaced with another one so we have to watch directories instead of the file itself.
+	// Start with the directory of the symlink so we don't miss a switch of it.
+	err = watcher.Add(filepath.Dir(path))
 
 	if err != nil {
+		watcher.Close()
 		return err
 	}
 
-	// The file can be replaced with another one so we have to watch directories instead of the file itself
-	for _, dir := range []string{filepath.Dir(path), filepath.Dir(realPath)} {
-		err = watcher.Add(dir)
+	// Path without symlinks
+	realPath, err := filepath.EvalSymlinks(path)
 
-		if err != nil {
-			watcher.Close()
-			return err
-		}
+	if err != nil {
+		watcher.Close()
+		return err
+	}
+
+	err = watcher.Add(filepath.Dir(realPath))
+
+	if err != nil {
+		watcher.Close()
+		return err
 	}
 
 	// Channel to notify handler to stop
-- 
2.43.0


From ba38289753c09cb7adaffe0d7d9fb29e4ee1c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 30/32] fix: reject array sizes that overflow

---
 pkg/pg/read_buffer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index a42883b..d488d09 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -104,6 +104,11 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// Avoid overflow of the size in bytes
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,11 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// Avoid overflow of the size in bytes
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 8dd753d59829814cb670aaaea145769454cb3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:38 +0000
Subject: [PATCH 31/32] fix: a config's symlink may be replaced with a file
 during the start-up

---
 pkg/cli/file_watcher.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index a0f42de..f42ce02 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -1,7 +1,9 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
+	"syscall"
 
 	"github.com/fsnotify/fsnotify"
 	log "github.com/sirupsen/logrus"
@@ -56,6 +58,11 @@ func (w *fileWatcher) Watch() error {
 	// Path without symlinks
 	realPath, err := filepath.EvalSymlinks(path)
 
+	// Try again if a symlink has been replaced with a regular file meanwhile
+	for i := 0; i < 10 && errors.Is(err, syscall.EINVAL); i++ {
+		realPath, err = filepath.EvalSymlinks(path)
+	}
+
 	if err != nil {
 		watcher.Close()
 		return err
-- 
2.43.0


From 5d71b0a3b42fdc5963c8222f37aad05e459f2918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:59 +0000
Subject: [PATCH 32/32] fix: decode query parameters of a URI literally, not as
 a submitted form

---
 pkg/pg/dsn.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 306ccef..fab9868 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -78,9 +78,38 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	return settings, nil
 }
 
-// parseQuery parses the query part of a URI. Unlike URL.Query() it doesn't ignore malformed parameters.
+// parseQuery parses the query part of a URI. Unlike URL.Query() it doesn't ignore malformed parameters, and it doesn't
+// treat the URI as a submitted HTML form, where "+" is a space and ";" is not allowed.
 func parseQuery(query string) (url.Values, error) {
-	return url.ParseQuery(query)
+	values := url.Values{}
+
+	for _, param := range strings.Split(query, "&") {
+		if param == "" {
+			continue
+		}
+
+		pair := strings.SplitN(param, "=", 2)
+
+		name, err := url.PathUnescape(pair[0])
+
+		if err != nil {
+			return nil, err
+		}
+
+		value := ""
+
+		if len(pair) == 2 {
+			value, err = url.PathUnescape(pair[1])
+
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		values.Add(name, value)
+	}
+
+	return values, nil
 }
 
 // defaultConnectionSettings returns PostgreSQL implicit default connection settings.
-- 
2.43.0

