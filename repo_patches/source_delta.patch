From 8fe79c33277364a1065840ab97f57630db02664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:58 +0000
Subject: [PATCH 01/35] fix: prefix_suffix_unpacker reports an invalid frame
 that follows valid ones in the same read

parse_msg() returned true when the loop ended on an invalid frame after
at least one valid message, then the next read completed with 0 bytes
immediately and reading stopped silently.
---
 include/ext/unpacker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ext/unpacker.h b/include/ext/unpacker.h
index d8163cd..458b36a 100644
--- a/include/ext/unpacker.h
+++ b/include/ext/unpacker.h
@@ -671,8 +671,8 @@ public:
 		assert(remain_len <= ST_ASIO_MSG_BUFFER_SIZE);
 
 		const char* pnext = raw_buff.begin();
-		size_t min_len = _prefix.size() + _suffix.size();
-		while (0 == peek_msg(remain_len, pnext) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
+		size_t min_len = _prefix.size() + _suffix.size(), hint; //hint is 0 if got a msg or found an invalid msg
+		while (0 == (hint = peek_msg(remain_len, pnext)) && (size_t) -1 != cur_msg_len && 0 != cur_msg_len)
 		{
 			assert(cur_msg_len >= min_len);
 			if (cur_msg_len > min_len) //exclude heartbeat
@@ -692,7 +692,8 @@ public:
 		else if (remain_len > 0)
 			memmove(raw_buff.begin(), pnext, remain_len); //left behind unparsed msg
 
-		return true;
+		//if unpacking failed, successfully parsed msgs will still returned via msg_can(sticky package), please note.
+		return 0 != hint;
 	}
 
 	//a return value of 0 indicates that the read operation is complete. a non-zero value indicates the maximum number
-- 
2.43.0


From 0760fdbb85c130ec9da2e0d4ca3fc93a45f502ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 02/35] fix: packer: container forms refuse messages which
 exceed the header's range

with ST_ASIO_MSG_BUFFER_SIZE bigger than 65535 and a two byte header,
pack_msg(msg, msg_can) and friends emitted a truncated length instead of
refusing the message as the part array form does.
---
 include/ext/packer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index 969e1cc..d0f3707 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -64,7 +64,8 @@ private:
 	typedef i_packer<T> super;
 
 public:
-	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
+	//a message (include the head) can exceed neither the ST_ASIO_MSG_BUFFER_SIZE nor the header's range
+	static size_t get_max_msg_size() {return std::min((size_t) ST_ASIO_MSG_BUFFER_SIZE, (size_t) (ST_ASIO_HEAD_TYPE) -1) - ST_ASIO_HEAD_LEN;}
 
 	packer() {ST_ASIO_HEAD_TYPE head_len = packer_helper::pack_header(0); heartbeat.assign((const char*) &head_len, ST_ASIO_HEAD_LEN);}
 
-- 
2.43.0


From ce007cb3e75d0d67f6847dce8d4647a652971b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 03/35] fix: fixed_length_packer: no heartbeat, right raw data,
 message limit in all forms

it inherited packer's heartbeat (a bare head, which shifts all following
messages of the peer's fixed_length_unpacker) and packer's raw_data (which
skips a head the message doesn't have), and the container forms didn't
check the maximum length.
---
 include/ext/packer.h | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/ext/packer.h b/include/ext/packer.h
index d0f3707..61558f0 100644
--- a/include/ext/packer.h
+++ b/include/ext/packer.h
@@ -246,12 +246,42 @@ public:
 class fixed_length_packer : public packer<>
 {
 public:
+	static size_t get_max_msg_size() {return ST_ASIO_MSG_BUFFER_SIZE;}
+
 	using packer::pack_msg;
 	virtual bool pack_msg(msg_type& msg, const char* const pstr[], const size_t len[], size_t num, bool native = false) {return packer::pack_msg(msg, pstr, len, num, true);}
-	virtual bool pack_msg(msg_type& msg, container_type& msg_can) {msg_can.emplace_back().swap(msg); return true;}
-	virtual bool pack_msg(msg_type& msg1, msg_type& msg2, container_type& msg_can) {msg_can.emplace_back().swap(msg1); msg_can.emplace_back().swap(msg2); return true;}
-	virtual bool pack_msg(container_type& in, container_type& out) {in.swap(out); return true;}
+	virtual bool pack_msg(msg_type& msg, container_type& msg_can)
+	{
+		if (msg.size() > get_max_msg_size())
+			return false;
+
+		msg_can.emplace_back().swap(msg);
+		return true;
+	}
+	virtual bool pack_msg(msg_type& msg1, msg_type& msg2, container_type& msg_can)
+	{
+		if (msg1.size() + msg2.size() > get_max_msg_size()) //not considered overflow
+			return false;
+
+		msg_can.emplace_back().swap(msg1);
+		msg_can.emplace_back().swap(msg2);
+		return true;
+	}
+	virtual bool pack_msg(container_type& in, container_type& out)
+	{
+		if (st_asio_wrapper::get_size_in_byte(in) > get_max_msg_size()) //not considered overflow
+			return false;
+
+		in.swap(out);
+		return true;
+	}
 	//not support heartbeat because fixed_length_unpacker cannot recognize heartbeat message
+	virtual bool pack_heartbeat(msg_type& msg) {return false;}
+
+	//there's no head
+	virtual char* raw_data(msg_type& msg) const {return const_cast<char*>(msg.data());}
+	virtual const char* raw_data(msg_ctype& msg) const {return msg.data();}
+	virtual size_t raw_data_len(msg_ctype& msg) const {return msg.size();}
 };
 
 //protocol: [prefix] + body + suffix
-- 
2.43.0


From 1c82ac4ab9256f99fc8534c94a03ffc702d508ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 04/35] fix: basic_buffer(other, pos, len) copies the bytes of
 other

it advanced other.size() instead of other.data(), which resolved to
append(size_t, char).
---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 4707bf4..b139116 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -88,7 +88,7 @@ public:
 	{
 		do_detach();
 		if (pos < other.size())
-			append(boost::next(other.size(), pos), pos + len > other.size() ? other.size() - pos : len);
+			append(boost::next(other.data(), pos), len > other.size() - pos ? other.size() - pos : len);
 	}
 
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
-- 
2.43.0


From 02127408a7d0e56b43c4ffb3d3b4ed52ed440159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 05/35] fix: basic_buffer: self assignment and appending or
 assigning a part of itself

self assignment emptied the buffer, appending a part of itself read freed
memory if the buffer had to grow.
---
 include/ext/ext.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index b139116..ec20cf3 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -94,7 +94,7 @@ public:
 	inline basic_buffer& operator=(char c) {resize(0); return operator+=(c);}
 	inline basic_buffer& operator=(char* buff) {resize(0); return operator+=(buff);}
 	inline basic_buffer& operator=(const char* buff) {resize(0); return operator+=(buff);}
-	inline basic_buffer& operator=(const basic_buffer& other) {resize(0); return operator+=(other);}
+	inline basic_buffer& operator=(const basic_buffer& other) {if (this != &other) {resize(0); operator+=(other);} return *this;}
 	template<typename Buff> inline basic_buffer& operator=(const Buff& other) {resize(0); return operator+=(other);}
 
 	inline basic_buffer& operator+=(char c) {return append(c);}
@@ -131,9 +131,16 @@ public:
 
 			size_t capacity = len + _len;
 			if (capacity > cap)
+			{
+				//_buff can be a part of this buffer, which will be moved by reserve
+				bool self = NULL != buff && !std::less<const char*>()(_buff, buff) && std::less<const char*>()(_buff, buff + cap);
+				size_t pos = self ? _buff - buff : 0;
 				reserve(capacity);
+				if (self)
+					_buff = buff + pos;
+			}
 
-			memcpy(boost::next(buff, len), _buff, _len);
+			memmove(boost::next(buff, len), _buff, _len);
 			len += (unsigned) _len;
 		}
 
-- 
2.43.0


From d3b6c352e67c08e3b3ac22ede3ebf0299ca6cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 06/35] fix: basic_buffer: rejected lengths leave the buffer
 unchanged

assign and append2 had already emptied the buffer (or removed the last
character) when append threw.
---
 include/ext/ext.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index ec20cf3..1f31271 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -170,7 +170,9 @@ public:
 	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
-		if (len > 0 && '\0' == *boost::next(buff, len - 1))
+		if (_len > max_size())
+			throw std::length_error("too big memory request");
+		else if (len > 0 && '\0' == *boost::next(buff, len - 1))
 			resize(len - 1); //delete the last character if it's '\0'
 
 		return append(_buff, _len);
@@ -207,7 +209,7 @@ public:
 	}
 
 	void assign(size_t len) {resize(len);}
-	void assign(const char* buff, size_t len) {resize(0); append(buff, len);}
+	void assign(const char* buff, size_t len) {if (len > max_size()) throw std::length_error("too big memory request"); resize(0); append(buff, len);}
 
 	void shrink_to_fit() {reserve(0);}
 	void reserve(size_t capacity)
-- 
2.43.0


From 1bf7c99cb32d233231ec7609b3f4864655113a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:09 +0000
Subject: [PATCH 07/35] fix: basic_buffer::append2(const char*) deletes the
 trailing '\0' as documented

---
 include/ext/ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ext/ext.h b/include/ext/ext.h
index 1f31271..f01460c 100644
--- a/include/ext/ext.h
+++ b/include/ext/ext.h
@@ -167,7 +167,7 @@ public:
 		printf("%zu\n", bb.size()); //the final length of bb is 13, just include the last '\0' character, all middle '\0' characters have been deleted.
 	*/
 	//by the way, deleting the last character which is not '\0' before appending another string is very efficient, please use it freely.
-	basic_buffer& append2(const char* buff) {return append(buff, strlen(buff) + 1);} //include the '\0' character
+	basic_buffer& append2(const char* buff) {return append2(buff, strlen(buff) + 1);} //include the '\0' character
 	basic_buffer& append2(const char* _buff, size_t _len)
 	{
 		if (_len > max_size())
-- 
2.43.0


From 43d8b82bfbb3ed8ee5bb8227e005df484d2f3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 08/35] fix: timer: a queued expiration of a previous start
 doesn't fire a restarted timer

---
 include/timer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..3641369 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -174,11 +174,12 @@ protected:
 
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
+		//the first 'prev_seq == ti.seq' judgement is used to exclude the expiration of a previous start, which had been queued before the timer was started again
 		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
@@ -187,7 +188,7 @@ protected:
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
 #else
-		if (timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
 			start_timer(ti);
 #endif
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
-- 
2.43.0


From 811a3002f0b4cd714dea1185823b289e31cd80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:05 +0000
Subject: [PATCH 09/35] fix: timer: a callback which replaces itself isn't
 destroyed during its execution

---
 include/timer.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 3641369..9bf448d 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -62,8 +62,9 @@ public:
 		unsigned interval_ms;
 		timer_type timer;
 		boost::function<bool (tid)> call_back; //return true from call_back to continue the timer, or the timer will stop
+		bool replaced; //call_back has been replaced during its own execution
 
-		timer_info(tid id_, boost::asio::io_context& io_context_) : id(id_), seq(-1), status(TIMER_CREATED), interval_ms(0), timer(io_context_) {}
+		timer_info(tid id_, boost::asio::io_context& io_context_) : id(id_), seq(-1), status(TIMER_CREATED), interval_ms(0), timer(io_context_), replaced(false) {}
 		bool operator ==(const timer_info& other) {return id == other.id;}
 		bool operator ==(tid id_) {return id == id_;}
 	};
@@ -109,7 +110,7 @@ public:
 		assert(NULL != ti);
 
 		ti->interval_ms = interval;
-		ti->call_back.swap(call_back);
+		change_call_back(*ti, call_back);
 
 		if (start)
 			start_timer(*ti);
@@ -123,7 +124,7 @@ public:
 	bool change_timer_interval(tid id, unsigned interval) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->interval_ms = interval, true : false;}
 
 	//after this call, call_back cannot be used again, please note.
-	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? ti->call_back.swap(call_back), true : false;}
+	bool change_timer_call_back(tid id, boost::function<bool(tid)>& call_back) {BOOST_AUTO(ti, find_timer(id)); return NULL != ti ? change_call_back(*ti, call_back), true : false;}
 	bool change_timer_call_back(tid id, const boost::function<bool(tid)>& call_back) {BOOST_AUTO(unused, call_back); return change_timer_call_back(id, unused);}
 
 	//after this call, call_back cannot be used again, please note.
@@ -172,6 +173,20 @@ protected:
 	}
 	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
 
+	void change_call_back(timer_info& ti, boost::function<bool(tid)>& call_back) {ti.call_back.swap(call_back); ti.replaced = true;}
+
+	//call_back may be replaced (set_timer, change_timer_call_back, etc.) by itself, so execute a copy, otherwise, it will be destroyed during its own execution
+	bool invoke_call_back(timer_info& ti)
+	{
+		boost::function<bool(tid)> call_back(ti.call_back);
+		ti.replaced = false;
+		bool re = call_back(ti.id);
+		if (!ti.replaced)
+			ti.call_back.swap(call_back); //keep the states of the functor
+
+		return re;
+	}
+
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
 		//the first 'prev_seq == ti.seq' judgement is used to exclude the expiration of a previous start, which had been queued before the timer was started again
@@ -179,7 +194,7 @@ protected:
 		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
@@ -188,7 +203,7 @@ protected:
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
 #else
-		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && ti.call_back(ti.id) && timer_info::TIMER_STARTED == ti.status)
+		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
 			start_timer(ti);
 #endif
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
-- 
2.43.0


From 8f90ad678753bf753bd42476aa79e149ea48837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 10/35] fix: a refused message is re-dispatched only after
 msg_handling_interval

---
 include/socket.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 7cb1e52..bc1b5f7 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -726,10 +726,13 @@ private:
 	}
 
 	//do not use dispatch_strand/dispatch_in_dis_strand at here, because the handler (do_dispatch_msg) may call this function, which can lead stack overflow.
-	void dispatch_msg() {if (!dispatching) post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));}
+	void dispatch_msg() {if (!dispatching) post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this, false));}
 	void accumulate_dispatch_delay(const statistic::stat_time& begin_time, const out_msg& msg) {stat.dispatch_delay_sum += begin_time - msg.begin_time;}
-	void do_dispatch_msg()
+	void do_dispatch_msg(bool re_dispatch)
 	{
+		if (dispatching && !re_dispatch) //a refused msg must be re-dispatched by TIMER_DISPATCH_MSG only, not by a job posted before the refusal
+			return;
+
 #ifdef ST_ASIO_DISPATCH_BATCH_MSG
 		if (!recv_buffer.is_empty())
 		{
@@ -771,7 +774,7 @@ private:
 				dispatching_msg.clear();
 #endif
 				dispatching = false;
-				post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this)); //dispatch msg in sequence
+				post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this, false)); //dispatch msg in sequence
 			}
 		}
 		else
@@ -783,7 +786,7 @@ private:
 		switch (id)
 		{
 		case TIMER_DISPATCH_MSG:
-			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this));
+			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this, true));
 			break;
 		case TIMER_DELAY_CLOSE:
 			{
-- 
2.43.0


From dd6942e05471d5c5bbdbbdbe765cb099579c11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 11/35] fix: a message refused before the link broke is
 dispatched again after reconnecting

---
 include/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index bc1b5f7..30d28f8 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -326,6 +326,8 @@ protected:
 		start_heartbeat(ST_ASIO_HEARTBEAT_INTERVAL);
 #endif
 		send_msg(); //send buffer may have msgs, send them
+		if (dispatching) //a msg was refused before the link broke, and its re-dispatching has been stopped by close
+			set_timer(TIMER_DISPATCH_MSG, msg_handling_interval_, boost::bind(&socket::timer_handler, this, boost::placeholders::_1));
 #if !defined(ST_ASIO_PASSIVE_RECV) || !defined(ST_ASIO_SYNC_RECV)
 		recv_msg();
 #endif
-- 
2.43.0


From bb76a5111bab61184293aee20143c560ab0e73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:52 +0000
Subject: [PATCH 12/35] fix: a restarted or reconnected socket doesn't report
 itself obsolete

---
 include/socket.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 30d28f8..0e1b8be 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -153,7 +153,12 @@ public:
 		{
 			scope_atomic_lock lock(start_atomic);
 			if (!started_ && lock.locked())
-				started_ = do_start();
+			{
+				bool obsoleted = obsoleted_;
+				obsoleted_ = false; //may have been obsoleted by a previous link
+				if (!(started_ = do_start()))
+					obsoleted_ = obsoleted;
+			}
 			else
 				unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
 		}
@@ -810,9 +815,9 @@ private:
 			unpacker_->reset(); //very important, otherwise, the unpacker will never be able to parse any more messages if its buffer has legacy data
 			on_close();
 			change_timer_status(id, timer_info::TIMER_CANCELED);
+			obsoleted_ = true; //must before after_close, because this socket may be started again in it
 			after_close();
 			set_async_calling(false);
-			obsoleted_ = true;
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 9394b621bf90b360251c826cba1a8bc3b1a312c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 13/35] fix: a client which cannot bind its local address goes
 on reconnecting

---
 include/tcp/client_socket.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 643a33d..2bc5534 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -125,7 +125,13 @@ protected:
 	virtual bool do_start() //connect
 	{
 		assert(!ST_THIS is_connected());
-		return bind() && ST_THIS set_timer(TIMER_CONNECT, 50, (boost::lambda::bind(&generic_client_socket::connect, this, true), false));
+		if (bind())
+			return ST_THIS set_timer(TIMER_CONNECT, 50, (boost::lambda::bind(&generic_client_socket::connect, this, true), false));
+		else if (!need_reconnect)
+			return false;
+
+		connect_handler(boost::asio::error::address_in_use); //try again later, as if connecting failed
+		return true;
 	}
 
 	virtual void connect_handler(const boost::system::error_code& ec)
@@ -185,7 +191,10 @@ private:
 	bool connect(bool first)
 	{
 		if (!first && !bind())
+		{
+			connect_handler(boost::asio::error::address_in_use); //try again later, as if connecting failed
 			return false;
+		}
 
 		ST_THIS lowest_layer().async_connect(server_addr, ST_THIS make_handler_error(boost::bind(&generic_client_socket::connect_handler, this, boost::asio::placeholders::error)));
 		return true;
-- 
2.43.0


From 240fd96070b404c8d330e725edbcd97eb9c1525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 14/35] fix: object pool: an object whose id was taken over
 doesn't remove the new owner, and a removed object isn't revived by a new id

---
 include/object_pool.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/object_pool.h b/include/object_pool.h
index 25b7a84..9543c72 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -76,7 +76,10 @@ protected:
 		assert(object_ptr);
 
 		boost::unique_lock<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
-		bool exist = object_can.erase(object_ptr->id()) > 0;
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		bool exist = iter != object_can.end() && iter->second == object_ptr; //another object may have taken the id over (see init_object_id)
+		if (exist)
+			object_can.erase(iter);
 		lock.unlock();
 
 		if (exist)
@@ -135,7 +138,10 @@ protected:
 			return true;
 
 		boost::lock_guard<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
-		if (!object_can.emplace(id, object_ptr).second)
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		if (iter == object_can.end() || iter->second != object_ptr) //only live objects, a removed object must not be in both containers
+			return false;
+		else if (!object_can.emplace(id, object_ptr).second)
 			return false;
 
 		object_can.erase(object_ptr->id());
-- 
2.43.0


From 15a57f63e16d40374bb1dab79eee418596d11c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 15/35] fix: a server which failed to listen doesn't pretend to
 be listening

---
 include/tcp/server.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 141d288..275d0f2 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -118,7 +118,14 @@ public:
 #else
 		acceptor.listen(boost::asio::socket_base::max_connections, ec); assert(!ec);
 #endif
-		if (ec) {unified_out::error_out("listen failed."); return false;}
+		if (ec)
+		{
+			unified_out::error_out("listen failed.");
+			listening = false;
+			acceptor.close(ec); //it's been bound, without this, start_listen will never succeed again
+
+			return false;
+		}
 
 		st_asio_wrapper::do_something_to_all(sockets, boost::bind(&generic_server::do_async_accept, this, boost::placeholders::_1));
 		return true;
-- 
2.43.0


From 88c4b17502e1058ded14174510e68a4dc34b65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:25 +0000
Subject: [PATCH 16/35] fix: timer: a start or stop from another thread while
 the callback ends isn't lost

---
 include/timer.h | 51 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 9bf448d..ae7bc72 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -160,6 +160,14 @@ protected:
 		if (!ti.call_back)
 			return false;
 
+		boost::lock_guard<boost::mutex> lock(timer_status_mutex);
+		do_start_timer(ti, interval_ms);
+		return true;
+	}
+	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
+
+	void do_start_timer(timer_info& ti, unsigned interval_ms)
+	{
 		ti.status = timer_info::TIMER_STARTED;
 #if BOOST_ASIO_VERSION >= 101100
 		ti.timer.expires_after(milliseconds(interval_ms));
@@ -169,18 +177,29 @@ protected:
 
 		//if timer already started, this will cancel it first
 		ti.timer.async_wait(ST_THIS make_handler_error(boost::bind(&timer::timer_handler, this, boost::asio::placeholders::error, boost::ref(ti), ++ti.seq)));
-		return true;
 	}
-	bool start_timer(timer_info& ti) {return start_timer(ti, ti.interval_ms);}
 
-	void change_call_back(timer_info& ti, boost::function<bool(tid)>& call_back) {ti.call_back.swap(call_back); ti.replaced = true;}
+	void change_call_back(timer_info& ti, boost::function<bool(tid)>& call_back)
+		{boost::lock_guard<boost::mutex> lock(timer_status_mutex); ti.call_back.swap(call_back); ti.replaced = true;}
 
 	//call_back may be replaced (set_timer, change_timer_call_back, etc.) by itself, so execute a copy, otherwise, it will be destroyed during its own execution
-	bool invoke_call_back(timer_info& ti)
+	bool invoke_call_back(timer_info& ti, unsigned char prev_seq)
 	{
-		boost::function<bool(tid)> call_back(ti.call_back);
-		ti.replaced = false;
+		boost::function<bool(tid)> call_back;
+		{
+			boost::lock_guard<boost::mutex> lock(timer_status_mutex);
+			//the 'prev_seq == ti.seq' judgement is used to exclude the expiration of a previous start, which had been queued before the timer was started again
+			//the 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
+			if (prev_seq != ti.seq || timer_info::TIMER_STARTED != ti.status)
+				return false;
+
+			call_back = ti.call_back;
+			ti.replaced = false;
+		}
+
 		bool re = call_back(ti.id);
+
+		boost::lock_guard<boost::mutex> lock(timer_status_mutex);
 		if (!ti.replaced)
 			ti.call_back.swap(call_back); //keep the states of the functor
 
@@ -189,29 +208,32 @@ protected:
 
 	void timer_handler(const boost::system::error_code& ec, timer_info& ti, unsigned char prev_seq)
 	{
-		//the first 'prev_seq == ti.seq' judgement is used to exclude the expiration of a previous start, which had been queued before the timer was started again
-		//the first 'timer_info::TIMER_STARTED == ti.status' judgement means stop_timer can also invalidate cumulative timer callbacks
-		//the second 'timer_info::TIMER_STARTED == ti.status' judgement is used to exclude a particular situation--stop the same timer in call_back and return true
 #ifdef ST_ASIO_ALIGNED_TIMER
 		BOOST_AUTO(begin_time, boost::chrono::system_clock::now());
-		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
+#endif
+		bool go_on = !ec && invoke_call_back(ti, prev_seq);
+
+		//call_back may have let another thread start or stop this timer, so judge and update the status atomically, otherwise, that start or stop may be lost
+		boost::lock_guard<boost::mutex> lock(timer_status_mutex);
+		if (go_on && timer_info::TIMER_STARTED == ti.status) //exclude a particular situation--stop the same timer in call_back and return true
 		{
+#ifdef ST_ASIO_ALIGNED_TIMER
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
 				elapsed_ms %= ti.interval_ms;
 
-			start_timer(ti, ti.interval_ms - elapsed_ms);
-		}
+			do_start_timer(ti, ti.interval_ms - elapsed_ms);
 #else
-		if (prev_seq == ti.seq && timer_info::TIMER_STARTED == ti.status && !ec && invoke_call_back(ti) && timer_info::TIMER_STARTED == ti.status)
-			start_timer(ti);
+			do_start_timer(ti, ti.interval_ms);
 #endif
+		}
 		else if (prev_seq == ti.seq) //exclude a particular situation--start the same timer in call_back and return false
 			ti.status = timer_info::TIMER_CANCELED;
 	}
 
 	void stop_timer(timer_info& ti)
 	{
+		boost::lock_guard<boost::mutex> lock(timer_status_mutex);
 		if (timer_info::TIMER_STARTED == ti.status) //enable stopping timers that has been stopped
 		{
 			ti.status = timer_info::TIMER_CANCELED; //invalidate cumulative timer callbacks first
@@ -228,6 +250,7 @@ private:
 	typedef boost::container::list<timer_info> container_type;
 	container_type timer_can;
 	boost::mutex timer_can_mutex;
+	boost::mutex timer_status_mutex; //protects all timer_info, because call_back may let another thread start or stop the same timer before call_back returns
 
 	using Executor::io_context_;
 	unsigned io_context_refs;
-- 
2.43.0


From 391e92d99c177a7514a805c9d2d357195f7543ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:37 +0000
Subject: [PATCH 17/35] fix: reads, writes, handshakes and shutdowns of a link
 run in its IO strand (ssl corrupted memory otherwise)

---
 include/tcp/socket.h              | 12 ++++++------
 include/tcp/ssl/ssl.h             |  9 ++++++---
 include/tcp/websocket/ssl/ssl.h   |  4 ++--
 include/tcp/websocket/websocket.h | 20 +++++++++-----------
 4 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..46cb4c7 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,9 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//don't erase the type of the call back (with boost::function for example), otherwise, its associated executor (the IO strand) will be lost.
+	template<typename CallBack> bool async_read(CallBack call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -50,8 +49,8 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename CallBack>
+	void async_write(const Buffer& msg_can, CallBack call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
@@ -287,6 +286,8 @@ protected:
 	virtual void on_unpack_error() = 0;
 	virtual void on_async_shutdown_error() = 0;
 
+	using super::rw_strand; //ssl and websocket need it, asynchronous operations on the next layer must be performed in the same strand
+
 private:
 	using super::close;
 	using super::handle_error;
@@ -488,7 +489,6 @@ private:
 	using super::temp_msg_can;
 
 	using super::send_buffer;
-	using super::rw_strand;
 
 	//although boost::container::list::size() has constant complexity, but user can use std::list via macro or template parameter,
 	//before gcc 5.0, std::list::size() has linear complexity, very embarrassing!
diff --git a/include/tcp/ssl/ssl.h b/include/tcp/ssl/ssl.h
index dc9c635..7bca891 100644
--- a/include/tcp/ssl/ssl.h
+++ b/include/tcp/ssl/ssl.h
@@ -50,7 +50,8 @@ private:
 	{
 		ST_THIS show_info("ssl link:", "been shutting down.");
 		ST_THIS start_graceful_shutdown_monitoring();
-		ST_THIS next_layer().async_shutdown(ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error)));
+		ST_THIS next_layer().async_shutdown(make_strand_handler(ST_THIS rw_strand,
+			ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error))));
 	}
 
 	//do not stop the shutdown monitoring at here, sometimes, this async_shutdown cannot trigger on_recv_error,
@@ -105,7 +106,8 @@ private:
 		{
 			ST_THIS status = super::HANDSHAKING;
 			ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::client,
-				ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+				make_strand_handler(ST_THIS rw_strand,
+					ST_THIS make_handler_error(boost::bind(&client_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		}
 		else
 			super::connect_handler(ec);
@@ -161,7 +163,8 @@ protected:
 	{
 		ST_THIS status = super::HANDSHAKING;
 		ST_THIS next_layer().async_handshake(boost::asio::ssl::stream_base::server,
-			ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error)));
+			make_strand_handler(ST_THIS rw_strand,
+				ST_THIS make_handler_error(boost::bind(&server_socket_base::handle_handshake, this, boost::asio::placeholders::error))));
 		return true;
 	}
 
diff --git a/include/tcp/websocket/ssl/ssl.h b/include/tcp/websocket/ssl/ssl.h
index b0e20aa..cc68f63 100644
--- a/include/tcp/websocket/ssl/ssl.h
+++ b/include/tcp/websocket/ssl/ssl.h
@@ -107,7 +107,7 @@ private:
 			return super::connect_handler(boost::beast::error_code(static_cast<int>(::ERR_get_error()), boost::asio::error::get_ssl_category()));
 
 		// Perform the SSL handshake
-		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::client, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::client, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 	}
 
 	void handle_handshake(const boost::system::error_code& ec)
@@ -141,7 +141,7 @@ protected:
 		//boost::beast::get_lowest_layer(this->next_layer()).expires_after(std::chrono::seconds(30));
 #endif
 		// Perform the SSL handshake
-		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::server, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().next_layer().async_handshake(boost::asio::ssl::stream_base::server, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 		return true;
 	}
 
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..8504863 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//don't erase the type of the call back (with boost::function for example), otherwise, its associated executor (the IO strand) will be lost.
+	template<typename CallBack> void async_read(CallBack call_back) {super::async_read(recv_buff, call_back);}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& buff, CallBack call_back) {super::async_write(buff, call_back);}
 
 protected:
 	//helper function, just call it in constructor
@@ -82,11 +80,11 @@ public:
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
 protected:
-	template<typename CallBack> bool async_read(const CallBack& call_back) {this->next_layer().async_read(call_back); return true;}
+	template<typename CallBack> bool async_read(CallBack call_back) {this->next_layer().async_read(call_back); return true;}
 	bool parse_msg(size_t bytes_transferred, list<OutMsgType>& msg_can) {return this->next_layer().parse_msg(msg_can);}
 
 	size_t batch_msg_send_size() const {return 0;}
-	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, const CallBack& call_back) {this->next_layer().async_write(msg_can, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, CallBack call_back) {this->next_layer().async_write(msg_can, call_back);}
 };
 
 template<typename Socket> class socket : public Socket
@@ -110,11 +108,11 @@ protected:
 		this->dispatch_in_io_strand([this]() {
 			this->show_info("websocket link:", "been shutting down.");
 			this->start_graceful_shutdown_monitoring();
-			this->next_layer().async_close(boost::beast::websocket::close_code::normal, this->make_handler_error([this](const boost::system::error_code& ec) {
+			this->next_layer().async_close(boost::beast::websocket::close_code::normal, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {
 				this->stop_graceful_shutdown_monitoring();
 				if (ec)
 					this->show_info(ec, "websocket link", "async shutdown failed");
-			}));
+			})));
 		});
 	}
 };
@@ -178,7 +176,7 @@ protected:
 		// Provide the value of the Host HTTP header during the WebSocket handshake.
 		// See https://tools.ietf.org/html/rfc7230#section-5.4
 		// Perform the websocket handshake
-		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/", this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_handshake(this->endpoint_to_string(this->get_server_addr()), "/", make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 	}
 
 private:
@@ -227,7 +225,7 @@ protected:
 		}));
 #endif
 		// Accept the websocket handshake
-		this->next_layer().async_accept(this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);}));
+		this->next_layer().async_accept(make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {handle_handshake(ec);})));
 		return true;
 	}
 
-- 
2.43.0


From 4352b757f4a055218a62c9c770a23b471419f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:37 +0000
Subject: [PATCH 18/35] fix: an operation started after the link had been
 broken doesn't prevent the socket from closing (ssl)

---
 include/socket.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 0e1b8be..fff4d9c 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -788,6 +788,12 @@ private:
 			dispatching = false;
 	}
 
+	void cancel_io()
+	{
+		boost::system::error_code ec;
+		lowest_layer().cancel(ec);
+	}
+
 	bool timer_handler(tid id)
 	{
 		switch (id)
@@ -801,6 +807,8 @@ private:
 				if (0 == re)
 				{
 					stop_all_timer(id);
+					//an operation (for example, a step of async shutdown for ssl) started after the link had been broken may never complete by itself.
+					dispatch_in_io_strand(boost::bind(&socket::cancel_io, this));
 					return true;
 				}
 				else if (1 != re)
-- 
2.43.0


From cbbdd158fb6b7adefa879e67ba0d8b2c4cddc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 19/35] fix: synchronous sends are resolved once and only once,
 also when the link has been closed for good or the message has been discarded
 (callers hung or promises were set twice)

---
 include/base.h       |  5 +++--
 include/socket.h     | 22 ++++++++++++++++++++++
 include/tcp/socket.h |  9 +++------
 include/udp/socket.h |  9 +++------
 4 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..62a4510 100644
--- a/include/base.h
+++ b/include/base.h
@@ -605,6 +605,7 @@ template<typename T> struct obj_with_begin_time_promise : public obj_with_begin_
 	void swap(obj_with_begin_time_promise& other) {super::swap(other); p.swap(other.p);}
 
 	void clear() {super::clear(); p.reset();}
+	void set_result(sync_call_result result) {if (p) {p->set_value(result); p.reset();}} //at most once
 	void check_and_create_promise(bool need_promise) {if (!need_promise) p.reset(); else if (!p) p = boost::make_shared<boost::promise<sync_call_result> >();}
 
 	boost::shared_ptr<boost::promise<sync_call_result> > p;
@@ -687,10 +688,10 @@ template<typename _Predicate> void NAME(const _Predicate& __pred) const {for (BO
 #define GET_PENDING_MSG_SIZE(FUNNAME, CAN) size_t FUNNAME() const {return CAN.size_in_byte();}
 #define POP_FIRST_PENDING_MSG(FUNNAME, CAN, MSGTYPE) void FUNNAME(MSGTYPE& msg) {msg.clear(); CAN.try_dequeue(msg);}
 #define POP_FIRST_PENDING_MSG_NOTIFY(FUNNAME, CAN, MSGTYPE) void FUNNAME(MSGTYPE& msg) \
-	{msg.clear(); if (CAN.try_dequeue(msg)) {if (msg.p) msg.p->set_value(NOT_APPLICABLE);}}
+	{msg.clear(); if (CAN.try_dequeue(msg)) msg.set_result(NOT_APPLICABLE);}
 #define POP_ALL_PENDING_MSG(FUNNAME, CAN, CANTYPE) void FUNNAME(CANTYPE& can) {can.clear(); CAN.swap(can);}
 #define POP_ALL_PENDING_MSG_NOTIFY(FUNNAME, CAN, CANTYPE) void FUNNAME(CANTYPE& can) \
-	{can.clear(); CAN.swap(can); for (BOOST_AUTO(iter, can.begin()); iter != can.end(); ++iter) if (iter->p) iter->p->set_value(NOT_APPLICABLE);}
+	{can.clear(); CAN.swap(can); for (BOOST_AUTO(iter, can.begin()); iter != can.end(); ++iter) iter->set_result(NOT_APPLICABLE);}
 
 ///////////////////////////////////////////////////
 //TCP msg sending interface
diff --git a/include/socket.h b/include/socket.h
index fff4d9c..028222e 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -101,6 +101,9 @@ protected:
 	{
 #ifndef ST_ASIO_DISPATCH_BATCH_MSG
 		dispatching_msg.clear();
+#endif
+#ifdef ST_ASIO_SYNC_SEND
+		abandon_pending_msgs();
 #endif
 		send_buffer.clear();
 		recv_buffer.clear();
@@ -416,6 +419,10 @@ protected:
 		send_buffer.move_items_out_(size, msg_can);
 		send_buffer.unlock();
 
+#ifdef ST_ASIO_SYNC_SEND
+		for (BOOST_AUTO(iter, msg_can.begin()); iter != msg_can.end(); ++iter)
+			iter->set_result(NOT_APPLICABLE);
+#endif
 		on_msg_discard(msg_can);
 		return true;
 	}
@@ -463,6 +470,9 @@ protected:
 			on_close();
 			after_close();
 			obsoleted_ = true;
+#ifdef ST_ASIO_SYNC_SEND
+			check_obsoleted();
+#endif
 		}
 		else
 		{
@@ -473,6 +483,12 @@ protected:
 		return true;
 	}
 
+#ifdef ST_ASIO_SYNC_SEND
+	//nobody will resolve (send, discard and so on) these messages before this socket has been started again, so don't let the callers wait for them
+	void abandon_pending_msgs() {send_buffer.do_something_to_all(boost::bind(&in_msg::set_result, boost::placeholders::_1, NOT_APPLICABLE));}
+	void check_obsoleted() {if (obsoleted_ && !started_) abandon_pending_msgs();}
+#endif
+
 	void handle_error()
 	{
 #ifdef ST_ASIO_SYNC_RECV
@@ -602,6 +618,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		check_obsoleted();
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -627,6 +644,7 @@ protected:
 			return NOT_APPLICABLE;
 
 		send_msg();
+		check_obsoleted();
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -656,6 +674,7 @@ protected:
 		prior ? send_buffer.move_items_in_front(temp_buffer, size_in_byte) : send_buffer.move_items_in(temp_buffer, size_in_byte);
 
 		send_msg();
+		check_obsoleted();
 #ifdef BOOST_THREAD_USES_CHRONO
 		return 0 == duration || boost::future_status::ready == f.wait_for(boost::chrono::milliseconds(duration)) ? f.get() : TIMEOUT;
 #else
@@ -825,6 +844,9 @@ private:
 			change_timer_status(id, timer_info::TIMER_CANCELED);
 			obsoleted_ = true; //must before after_close, because this socket may be started again in it
 			after_close();
+#ifdef ST_ASIO_SYNC_SEND
+			check_obsoleted();
+#endif
 			set_async_calling(false);
 			break;
 		default:
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 46cb4c7..bfc8cc7 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -273,8 +273,7 @@ protected:
 	{
 #ifdef ST_ASIO_SYNC_SEND
 		for (BOOST_AUTO(iter, sending_msgs.begin()); iter != sending_msgs.end(); ++iter)
-			if (iter->p)
-				iter->p->set_value(NOT_APPLICABLE);
+			iter->set_result(NOT_APPLICABLE);
 #endif
 		status = BROKEN;
 		super::on_close();
@@ -419,8 +418,7 @@ private:
 			stat.send_msg_sum += sending_buffer.size(); //before gcc 5.0, std::list::size() has linear complexity, very embarrassing!
 #ifdef ST_ASIO_SYNC_SEND
 			for (BOOST_AUTO(iter, sending_msgs.begin()); iter != sending_msgs.end(); ++iter)
-				if (iter->p)
-					iter->p->set_value(SUCCESS);
+				iter->set_result(SUCCESS);
 #endif
 #ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
 			ST_THIS on_msg_send(sending_msgs.front());
@@ -450,8 +448,7 @@ private:
 		{
 #ifdef ST_ASIO_SYNC_SEND
 			for (BOOST_AUTO(iter, sending_msgs.begin()); iter != sending_msgs.end(); ++iter)
-				if (iter->p)
-					iter->p->set_value(NOT_APPLICABLE);
+				iter->set_result(NOT_APPLICABLE);
 #endif
 			on_send_error(ec, sending_msgs);
 			sending_msgs.clear(); //clear sending messages after on_send_error, then user can decide how to deal with them in on_send_error
diff --git a/include/udp/socket.h b/include/udp/socket.h
index b615c46..c72faed 100644
--- a/include/udp/socket.h
+++ b/include/udp/socket.h
@@ -228,8 +228,7 @@ protected:
 	virtual void on_close()
 	{
 #ifdef ST_ASIO_SYNC_SEND
-		if (sending_msg.p)
-			sending_msg.p->set_value(NOT_APPLICABLE);
+		sending_msg.set_result(NOT_APPLICABLE);
 #endif
 		ST_THIS clear_io_context_refs();
 #ifndef ST_ASIO_CLEAR_OBJECT_INTERVAL
@@ -362,8 +361,7 @@ private:
 			stat.send_time_sum += statistic::now() - sending_msg.begin_time;
 			++stat.send_msg_sum;
 #ifdef ST_ASIO_SYNC_SEND
-			if (sending_msg.p)
-				sending_msg.p->set_value(SUCCESS);
+			sending_msg.set_result(SUCCESS);
 #endif
 #ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
 			ST_THIS on_msg_send(sending_msg);
@@ -376,8 +374,7 @@ private:
 		else
 		{
 #ifdef ST_ASIO_SYNC_SEND
-			if (sending_msg.p)
-				sending_msg.p->set_value(NOT_APPLICABLE);
+			sending_msg.set_result(NOT_APPLICABLE);
 #endif
 			on_send_error(ec, sending_msg);
 		}
-- 
2.43.0


From 50761966362af280cc1d7c7b2ba899f192c9faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 20/35] fix: sync_safe_send_* don't send a timed out message
 again and don't report success for a consumed message

---
 include/base.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/base.h b/include/base.h
index 62a4510..ffcabee 100644
--- a/include/base.h
+++ b/include/base.h
@@ -905,23 +905,23 @@ TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //if can_overflow equal to false and the buffer is not available, will wait until it becomes available
 #define TCP_SYNC_SAFE_SEND_MSG(FUNNAME, SEND_FUNNAME) \
 sync_call_result FUNNAME(in_msg_type& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(msg, duration, true, prior);} \
 sync_call_result FUNNAME(in_msg_ctype& msg, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(msg, duration, true, prior);} \
 sync_call_result FUNNAME(in_msg_type& msg1, in_msg_type& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(msg1, msg2, duration, true, prior);} \
 sync_call_result FUNNAME(in_msg_ctype& msg1, in_msg_ctype& msg2, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg1, msg2, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(msg1, msg2, duration, true, prior);} \
 sync_call_result FUNNAME(typename Packer::container_type& msg_can, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(msg_can, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(msg_can, duration, true, prior);} \
 sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(pstr, len, num, duration, true, prior);} \
 TCP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //TCP sync msg sending interface
 ///////////////////////////////////////////////////
@@ -1003,8 +1003,8 @@ sync_call_result FUNNAME(const char* const pstr[], const size_t len[], size_t nu
 	{return FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior);} \
 sync_call_result FUNNAME(const typename Family::endpoint& peer_addr, \
 	const char* const pstr[], const size_t len[], size_t num, unsigned duration = 0, bool can_overflow = false, bool prior = false) \
-	{while (SUCCESS != SEND_FUNNAME(peer_addr, pstr, len, num, duration, can_overflow, prior)) \
-		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SUCCESS;} \
+	{while (!can_overflow && !ST_THIS shrink_send_buffer()) \
+		SAFE_SEND_MSG_CHECK(NOT_APPLICABLE) return SEND_FUNNAME(peer_addr, pstr, len, num, duration, true, prior);} \
 UDP_SYNC_SEND_MSG_CALL_SWITCH(FUNNAME, sync_call_result)
 //UDP sync msg sending interface
 ///////////////////////////////////////////////////
-- 
2.43.0


From 0e07b8f1bbe10362b1af10ce901cb537a97ed100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 21/35] fix: a synchronous receive doesn't miss the close of
 the link (callers hung)

---
 include/socket.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 028222e..709d9b8 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -450,9 +450,15 @@ protected:
 		if (!started_)
 			return false;
 
-		started_ = false;
 #ifdef ST_ASIO_SYNC_RECV
+		boost::unique_lock<boost::mutex> sync_lock(sync_recv_mutex); //otherwise, a caller who has just decided to wait would miss the notification
+		started_ = false;
+		if (REQUESTED == sr_status)
+			sr_status = RESPONDED_FAILURE;
 		sync_recv_cv.notify_all();
+		sync_lock.unlock();
+#else
+		started_ = false;
 #endif
 		stop_all_timer();
 
-- 
2.43.0


From 556c26d3f3eb88ec81e40ef8d66f496d4385712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 22/35] fix: parts of a message keep a link alive (a slow peer
 was reported dead)

---
 include/tcp/socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index bfc8cc7..02c8bb6 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -55,6 +55,9 @@ protected:
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
+		if (bytes_transferred > 0)
+			ST_THIS stat.last_recv_time = time(NULL); //a part of a message, the peer is alive
+
 		auto_duration dur(ST_THIS stat.unpack_time_sum);
 		return ST_THIS unpacker()->completion_condition(ec, bytes_transferred);
 	}
-- 
2.43.0


From 8e06c333fc4a80eb06dde476d28784c872413bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 23/35] fix: socks4 sends its request, not the previous reply,
 when the link is reconnected

---
 include/tcp/proxy/socks.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8ce3e13..ed852de 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -75,7 +75,7 @@ private:
 			ST_THIS force_shutdown(false);
 		}
 		else
-			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(buff, 8),
+			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(res_buff, 8),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
@@ -86,9 +86,9 @@ private:
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
 			ST_THIS force_shutdown(false);
 		}
-		else if (90 != buff[1])
+		else if (90 != res_buff[1])
 		{
-			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) buff[1]);
+			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) res_buff[1]);
 			ST_THIS force_shutdown(false);
 		}
 		else
@@ -96,7 +96,8 @@ private:
 	}
 
 private:
-	char buff[16];
+	char buff[16]; //the request, must be kept for the next negotiation
+	char res_buff[8];
 	size_t req_len;
 
 	boost::asio::ip::tcp::endpoint target_addr;
-- 
2.43.0


From 8791a8e7488a498abdcc6501fb7a3dbc552db64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 24/35] fix: a socks5 target given as an address replaces one
 given as a domain

---
 include/tcp/proxy/socks.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index ed852de..a0df7f9 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -140,6 +140,8 @@ public:
 		}
 		else if (!target_addr.address().is_v4() && !target_addr.address().is_v6())
 			return false;
+		else
+			target_domain.clear();
 
 		step = 0;
 		return true;
-- 
2.43.0


From 7ab4098a0041be05a8092258e56f689c0bd36fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 25/35] fix: malformed socks5 replies were accepted (wrong
 version, unknown address type, long domain, authentication not offered)

---
 include/tcp/proxy/socks.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index a0df7f9..8c8610d 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -283,7 +283,7 @@ private:
 			{
 				if (res_len < 2)
 					continue_read = true;
-				else if (res_len > 2)
+				else if (res_len > 2 || 5 != buff[0])
 				{
 					unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
 					succ = false;
@@ -293,7 +293,7 @@ private:
 					++step; //skip auth step
 					return send_request();
 				}
-				else if (2 == buff[1])
+				else if (2 == buff[1] && !username.empty())
 					return send_auth();
 				else
 				{
@@ -323,14 +323,16 @@ private:
 				size_t len = 6;
 				if (res_len < len)
 					continue_read = true;
-				else if (0 == buff[1])
+				else if (5 == buff[0] && 0 == buff[1])
 				{
 					if (1 == buff[3])
 						len += 4;
 					else if (3 == buff[3])
-						len += 1 + buff[4];
+						len += 1 + (unsigned char) buff[4];
 					else if (4 == buff[3])
 						len += 16;
+					else
+						len = 0; //unknown address type, treat it as a server error
 
 					if (res_len < len)
 						continue_read = true;
-- 
2.43.0


From 25a9a77f2ab50c3791f4a22aa4980d6ec436360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 26/35] fix: a socks5 target may be a domain in debug builds
 too (set_addr already reports invalid addresses)

---
 include/tcp/client_socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 2bc5534..a48a02c 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -36,9 +36,9 @@ public:
 		{
 			boost::system::error_code ec;
 #if BOOST_ASIO_VERSION >= 101100
-			BOOST_AUTO(addr, boost::asio::ip::make_address(ip, ec)); assert(!ec);
+			BOOST_AUTO(addr, boost::asio::ip::make_address(ip, ec));
 #else
-			BOOST_AUTO(addr, boost::asio::ip::address::from_string(ip, ec)); assert(!ec);
+			BOOST_AUTO(addr, boost::asio::ip::address::from_string(ip, ec));
 #endif
 			if (ec)
 			{
-- 
2.43.0


From 1bd4441122fac13d4f18111d6d437e42938d4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 27/35] fix: a link which is shut down while negotiating
 (socks, ssl) does not come alive when the answer arrives

---
 include/tcp/client_socket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index a48a02c..452253d 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -136,7 +136,9 @@ protected:
 
 	virtual void connect_handler(const boost::system::error_code& ec)
 	{
-		if (!ec) //already started, so cannot call start()
+		if (ST_THIS is_shutting_down()) //has been shut down while negotiating, must not come alive again
+			force_shutdown(need_reconnect);
+		else if (!ec) //already started, so cannot call start()
 			super::do_start();
 		else
 		{
-- 
2.43.0


From edf23fb2d5112446c285fec4bc2030097143509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 28/35] fix: force_shutdown(true) during a socks negotiation
 reconnects

---
 include/tcp/proxy/socks.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8c8610d..276f64b 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -72,7 +72,7 @@ private:
 		if (ec || req_len != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 write error", ST_THIS id());
-			ST_THIS force_shutdown(false);
+			ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 		}
 		else
 			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(res_buff, 8),
@@ -84,12 +84,12 @@ private:
 		if (ec || 8 != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
-			ST_THIS force_shutdown(false);
+			ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 		}
 		else if (90 != res_buff[1])
 		{
 			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) res_buff[1]);
-			ST_THIS force_shutdown(false);
+			ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 		}
 		else
 			super::connect_handler(ec);
@@ -257,7 +257,7 @@ private:
 		if (ec || req_len != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks5 write error", ST_THIS id());
-			ST_THIS force_shutdown(false);
+			ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 		}
 		else
 		{
@@ -273,7 +273,7 @@ private:
 		if (ec)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks5 read error", ST_THIS id());
-			ST_THIS force_shutdown(false);
+			ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 		}
 		else
 		{
@@ -355,13 +355,13 @@ private:
 			}
 
 			if (!succ)
-				ST_THIS force_shutdown(false);
+				ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 			else if (!continue_read)
 				super::connect_handler(ec);
 			else if (res_len >= sizeof(buff))
 			{
 				unified_out::info_out(ST_ASIO_LLF " socks5 server error", ST_THIS id());
-				ST_THIS force_shutdown(false);
+				ST_THIS force_shutdown(ST_THIS is_shutting_down() && ST_THIS is_reconnect());
 			}
 			else
 				ST_THIS next_layer().async_read_some(boost::asio::buffer(boost::next(buff, res_len), sizeof(buff) - res_len),
-- 
2.43.0


From 78cf74b0b8593a531b4f4fe9690008978a4fa2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 29/35] fix: a removed service is not freed again by its
 destructor (free() could not delete services)

---
 include/service_pump.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 59b0ddf..13bb6a2 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -229,10 +229,13 @@ public:
 		assert(NULL != i_service_);
 
 		boost::unique_lock<boost::mutex> lock(service_can_mutex);
+		size_t size = service_can.size();
 		service_can.remove(i_service_);
+		bool removed = service_can.size() < size;
 		lock.unlock();
 
-		stop_and_free(i_service_);
+		if (removed) //otherwise, it has been removed (and maybe is being freed) already
+			stop_and_free(i_service_);
 	}
 
 	void remove(int id)
-- 
2.43.0


From cd171c1a561cb5f73a9780eac9edb64fe3878013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:48 +0000
Subject: [PATCH 30/35] fix: a service thread ended by an exception is no
 longer counted

---
 include/service_pump.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 13bb6a2..a5e28cd 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -477,7 +477,7 @@ protected:
 #ifdef ST_ASIO_NO_TRY_CATCH
 			this_n = ctx->io_context.run_one();
 #else
-			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (!on_exception(e)) break;}
+			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (on_exception(e)) continue;}
 #endif
 			if (this_n > 0)
 				n += this_n; //n can overflow, please note.
-- 
2.43.0


From 2c94e295d1b41b1da81fc1d5077bf71938e67f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:21 +0000
Subject: [PATCH 31/35] fix: count a service thread before it begins, a
 deletion requested meanwhile got lost

---
 include/service_pump.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index a5e28cd..2b6ae4d 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -366,8 +366,15 @@ public:
 		{
 			BOOST_AUTO(ctx, assign_thread());
 			if (NULL == ctx)
+			{
 				unified_out::error_out("no available io_context!");
-			else if (block && i + 1 == thread_num)
+				continue;
+			}
+
+#ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
+			++real_thread_num; //count it before it begins, otherwise, a deletion requested in the meanwhile can get lost
+#endif
+			if (block && i + 1 == thread_num)
 				run(ctx); //block at here
 			else
 				ctx->threads.create_thread(boost::bind(&service_pump::run, this, ctx));
@@ -456,7 +463,6 @@ protected:
 		unified_out::info_out(os.str().data());
 
 #ifdef ST_ASIO_DECREASE_THREAD_AT_RUNTIME
-		++real_thread_num;
 		while (true)
 		{
 			if (del_thread_num > 0)
-- 
2.43.0


From b90b83e66680c59407ebf041ed038089c5b9915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 32/35] fix: a service pump which ran out by itself stops its
 services, and calls emitted by stopping an idle service don't survive it

---
 include/service_pump.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 2b6ae4d..cdb05f7 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -31,7 +31,7 @@ public:
 		//for the same i_service, start_service and stop_service are not thread safe,
 		//to resolve this defect, we must add a mutex member variable to i_service, it's not worth
 		void start_service() {if (!started_) started_ = init();}
-		void stop_service() {if (started_) uninit(); started_ = false;}
+		void stop_service() {if (started_) {started_ = false; uninit();}} //the service pump can end (because of uninit) before uninit returns
 		bool service_started() const {return started_;}
 
 		void id(int id) {id_ = id;}
@@ -315,11 +315,11 @@ public:
 	{
 		if (is_service_started())
 		{
+			do_something_to_all(boost::mem_fn(&i_service::stop_service));
 #ifdef ST_ASIO_AVOID_AUTO_STOP_SERVICE
 			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
 				iter->work.reset();
 #endif
-			do_something_to_all(boost::mem_fn(&i_service::stop_service));
 		}
 	}
 
@@ -428,6 +428,8 @@ protected:
 			iter->threads.join_all();
 			(&iter->threads)->~thread_group(); new (&iter->threads) boost::thread_group();
 		}
+		do_something_to_all(boost::mem_fn(&i_service::stop_service)); //run_service can end without end_service
+		run_left_calls();
 		do_something_to_all(boost::mem_fn(&i_service::finalize));
 
 		started = first = false;
@@ -437,6 +439,30 @@ protected:
 		unified_out::info_out("service pump end.");
 	}
 
+	//if an io_context had run out before its services were stopped, calls emitted by i_service::uninit are still queued,
+	// they must not disturb the next start, nor be executed after the services have been freed.
+	void run_left_calls()
+	{
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+		{
+			bool finished = false;
+#if BOOST_ASIO_VERSION >= 101100
+			boost::asio::post(iter->io_context, (boost::lambda::var(finished) = true));
+			iter->io_context.restart();
+#else
+			iter->io_context.post((boost::lambda::var(finished) = true));
+			iter->io_context.reset();
+#endif
+			while (!finished) //calls emitted from now on are not waited
+#ifdef ST_ASIO_NO_TRY_CATCH
+				iter->io_context.poll_one();
+#else
+				try {iter->io_context.poll_one();} catch (const std::exception& e) {on_exception(e);}
+#endif
+			iter->io_context.stop();
+		}
+	}
+
 	void stop_and_free(object_type i_service_)
 	{
 		assert(NULL != i_service_);
-- 
2.43.0


From fd2c091a587d940bb85dcec0784a787908a0d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 33/35] fix: io_context references are right if io_contexts are
 added when objects exist already

---
 include/service_pump.h | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index cdb05f7..a48c7f0 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -154,11 +154,9 @@ public:
 	//according to the implementation, it picks the io_context who has the least references, so the return values are not consistent.
 	operator boost::asio::io_context& () {return assign_io_context();}
 
+	//references are counted even if there's only one io_context, because add_service_thread can add io_contexts at runtime
 	boost::asio::io_context& assign_io_context(bool increase_ref = true) //pick the context which has the least references
 	{
-		if (single_ctx)
-			return context_can.front().io_context;
-
 		context* ctx = NULL;
 		unsigned refs = 0;
 
@@ -188,29 +186,23 @@ public:
 
 	void return_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs -= refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs -= refs;
+				break;
+			}
 	}
 	void assign_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs += refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs += refs;
+				break;
+			}
 	}
 
 	object_type find(int id)
-- 
2.43.0


From 340ed307a372674b462759aa5b935d0db769149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:16 +0000
Subject: [PATCH 34/35] fix: calls left over when a service pump has run out
 are also executed if its io_context is stopped late

---
 include/service_pump.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index a48c7f0..13ff3a2 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -440,17 +440,22 @@ protected:
 			bool finished = false;
 #if BOOST_ASIO_VERSION >= 101100
 			boost::asio::post(iter->io_context, (boost::lambda::var(finished) = true));
-			iter->io_context.restart();
 #else
 			iter->io_context.post((boost::lambda::var(finished) = true));
-			iter->io_context.reset();
 #endif
 			while (!finished) //calls emitted from now on are not waited
+			{
+#if BOOST_ASIO_VERSION >= 101100
+				iter->io_context.restart(); //the thread which finished the last work can stop it (again) at any time
+#else
+				iter->io_context.reset();
+#endif
 #ifdef ST_ASIO_NO_TRY_CATCH
 				iter->io_context.poll_one();
 #else
 				try {iter->io_context.poll_one();} catch (const std::exception& e) {on_exception(e);}
 #endif
+			}
 			iter->io_context.stop();
 		}
 	}
-- 
2.43.0


From 04721492f504edee8067cdc650b4ae986d599842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 35/35] fix: a reliable UDP socket closed while congestion
 control suspends its sending is able to send again after restarted

---
 include/udp/reliable_socket.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/udp/reliable_socket.h b/include/udp/reliable_socket.h
index 98e5566..28fd38f 100644
--- a/include/udp/reliable_socket.h
+++ b/include/udp/reliable_socket.h
@@ -108,7 +108,12 @@ protected:
 		return super::do_start();
 	}
 
-	virtual void on_close() {release_kcp(); super::on_close();}
+	virtual void on_close()
+	{
+		release_kcp();
+		ST_THIS clear_sending(); //if we're suspended by congestion control, nobody will resume us (TIMER_CC has been stopped), then sending is impossible after restarted
+		super::on_close();
+	}
 
 	virtual bool check_send_cc() //congestion control, return true means can continue to send messages
 	{
-- 
2.43.0

