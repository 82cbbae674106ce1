// stand-in: sockets are never used by the checks (links run over their in-memory stream)
#pragma once
#include <string>
#include <cstddef>
#include <system_error>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
namespace asio { typedef std::error_code error_code;
struct mutable_buffer { mutable_buffer(void*,size_t){} }; struct const_buffer{}; inline const_buffer buffer(const void*,size_t){ return {}; }
namespace error { enum misc { eof, would_block, try_again }; inline bool operator==(const std::error_code&,misc){ return false; } }
struct io_context { void run(){} void stop(){} };
namespace ip { struct address { std::string to_string() const { return ""; } }; struct tcp { struct resolver { resolver(io_context&){} typedef int iterator; }; struct acceptor { acceptor(io_context&){} }; struct endpoint { ip::address address() const { return {}; } }; struct socket { enum sd { shutdown_both }; size_t receive(const mutable_buffer&,int,error_code&e){ return 0; } void shutdown(sd,error_code&){} void close(error_code&){} endpoint remote_endpoint(error_code&){ return {}; } endpoint remote_endpoint(){ return {}; } bool is_open(){ return false; } int native_handle(){ return -1; } }; }; }
template<class S,class B> size_t write(S&,const B&,error_code&){ return 0; }
}
