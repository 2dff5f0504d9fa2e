# Drives the table and address helpers of milter-manager's Ruby library: one JSON request per line on stdin, one JSON
# answer per line on stdout.  Only the pure Ruby files are loaded, from the tree named in argv.
require "json"
require "stringio"
require "ipaddr"
$LOAD_PATH.unshift(File.join(ARGV[0], "binding/ruby/lib"))
module Milter
  module Manager
  end
end
require "milter/core/socket-address"
require "milter/manager/exception"
require "milter/manager/postfix-cidr-table"
require "milter/manager/postfix-regexp-table"
require "milter/manager/address-matcher"
require "milter/client/envelope-address"

class NamedIO < StringIO
  attr_accessor :path
end

def address(spec)
  case spec[0]
  when "4" then Milter::SocketAddress::IPv4.new(spec[1], 25)
  when "6" then Milter::SocketAddress::IPv6.new(spec[1], 25)
  when "L" then Milter::SocketAddress::Unix.new(spec[1])
  when "s" then spec[1]
  else Milter::SocketAddress::Unknown.new
  end
end

def guard
  {"ok" => yield}
rescue Milter::Manager::ParseError => e
  r = {"parse_error" => e.class.name.split("::").last, "message" => e.message}
  r["line_no"] = e.line_no if e.respond_to?(:line_no)
  r["path"] = e.path if e.respond_to?(:path)
  r
rescue StandardError, NotImplementedError => e
  {"exception" => "#{e.class}: #{e.message}"[0, 300]}
end

$stdin.each_line do |line|
  q = JSON.parse(line)
  a = {}
  case q["kind"]
  when "cidr", "regexp"
    table = q["kind"] == "cidr" ? Milter::Manager::PostfixCIDRTable.new : Milter::Manager::PostfixRegexpTable.new
    a["parse"] = q["texts"].collect do |text|
      io = NamedIO.new(text)
      io.path = "/path/of/table"
      guard { table.parse(io); true }
    end
    a["find"] = q["lookups"].collect do |l|
      guard { table.find(q["kind"] == "cidr" ? address(l) : l) }
    end
  when "matcher"
    matcher = Milter::Manager::AddressMatcher.new
    a["add"] = q["rules"].collect do |kind, text|
      guard { kind == "local" ? matcher.add_local_address(text) : matcher.add_remote_address(text); true }
    end
    a["find"] = q["lookups"].collect do |l|
      guard do
        ad = address(l)
        [matcher.local_address?(ad), matcher.remote_address?(ad), matcher.unknown_address?(ad)]
      end
    end
  when "envelope"
    a["find"] = q["lookups"].collect do |l|
      guard do
        e = Milter::Client::EnvelopeAddress.new(l)
        [e.address_spec, e.domain]
      end
    end
  end
  puts(JSON.generate(a))
  $stdout.flush
end
