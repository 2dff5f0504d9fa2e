# A milter written in Ruby (C29): does what a plan (JSON) says in each callback
# and writes down what it sees.
#   ruby ruby_milter.rb PLAN LOG COMMAND-LINE-ARGUMENTS...
# PLAN: {"methods": [names of the callbacks the milter has],
#        "composite": number of sessions (0: a plain session),
#        "sessions": {key: [[part, …], …]}}   one list of callbacks per session
# A session of the MTA is known by what it says in connect.
require "json"
require "milter"

PLAN = JSON.parse(File.read(ARGV.shift))
LOG = File.open(ARGV.shift, "ab")
LOG.sync = true

def hex(value)
  value.nil? ? nil : "x" + value.to_s.b.unpack1("H*")
end

def unhex(value)
  value.nil? ? nil : [value[1..-1]].pack("H*")
end

class Boom < StandardError
end

class VerifSession < Milter::ClientSession
  @@created = 0

  def initialize(context, part=0)
    @part = part
    super(context)
    @@created += 1
    if PLAN["refuse"].include?(@@created)
      note("refused")
      raise Boom, "no session"
    end
    @key = nil
    @index = 0
    @id = @@created
  end

  def note(event, *args)
    line = {"k" => @key, "p" => @part, "e" => event, "a" => args, "i" => @id, "pid" => $$}
    LOG.write(JSON.generate(line) + "\n")
  end

  def text(value, encoding)
    value = unhex(value)
    case encoding
    when "utf-8" then value.force_encoding("UTF-8")
    when "binary" then value.b
    else value
    end
  end

  def plan_next(event, args)
    macros = {}
    names = (PLAN["macros"] || [])
    names.each {|name| v = self[name]; macros[name] = hex(v) unless v.nil?}
    note(event, *args, macros)
    list = (PLAN["sessions"][@key] || [])[@part] || []
    item = list[@index]
    @index += 1
    (item || []).each {|op| act(op)}
  end

  def act(op)
    name, *rest = op
    case name
    when "status" then send(rest[0])
    when "reply"
      options = {}
      options[:code] = rest[1] if rest[1]
      options[:extended_code] = rest[2] if rest[2]
      options[:reason] = unhex(rest[3]) if rest[3]
      send(rest[0], options)
    when "raise" then raise(Boom, "planned")
    when "nomethod" then no_such_method_at_all
    when "exit" then raise(ScriptError, "planned")
    when "shset"
      Milter::Client::MailTransactionShelf.new(@context)[rest[0]] = rest[1]
    when "shget"
      note("shelf", rest[0], Milter::Client::MailTransactionShelf.new(@context)[rest[0]])
    when "keep"
      @kept ||= []
      @kept << rest[0]
    when "kept"
      note("kept", @kept)
    when "gc" then GC.start
    when "insh" then try(op) {insert_header(rest[0], text(rest[1], rest[3]), text(rest[2], rest[3]))}
    when "addh" then try(op) {add_header(text(rest[0], rest[2]), text(rest[1], rest[2]))}
    when "chgh" then try(op) {change_header(text(rest[0], rest[3]), rest[1], text(rest[2], rest[3]))}
    when "delh" then try(op) {delete_header(text(rest[0], rest[2]), rest[1])}
    when "body" then try(op) {replace_body(text(rest[0], rest[1]))}
    when "from"
      try(op) do
        if rest[1]
          @context.change_from(text(rest[0], nil), text(rest[1], nil))
        else
          change_from(text(rest[0], nil))
        end
      end
    when "addr" then try(op) {add_recipient(text(rest[0], nil), text(rest[1], nil))}
    when "delr" then try(op) {delete_recipient(text(rest[0], nil))}
    when "quar" then note("result", "quar", quarantine(text(rest[0], nil)) ? 1 : 0)
    when "prog" then progress
    else raise "plan: #{op.inspect}"
    end
  end

  def try(op)
    begin
      yield
      note("result", op[0], 1)
    rescue Milter::Error
      note("result", op[0], 0)
      raise if op.last == "loud"
    end
  end

  def reset
    @kept = []
    note("reset") if @key
  end

  define = lambda do |name, &block|
    define_method(name, &block) if PLAN["methods"].include?(name.to_s)
  end

  def connect(host, address)
    @key = host.to_s.b[/\A\w+/]
    plan_next("connect", [hex(host), hex(address.to_s)])
  end

  define.(:helo) {|fqdn| plan_next("helo", [hex(fqdn)])}
  define.(:envelope_from) {|from| plan_next("envelope_from", [hex(from)])}
  define.(:envelope_recipient) {|to| plan_next("envelope_recipient", [hex(to)])}
  define.(:data) {plan_next("data", [])}
  define.(:unknown) {|command| plan_next("unknown", [hex(command)])}
  define.(:header) {|name, value| plan_next("header", [hex(name), hex(value)])}
  define.(:end_of_header) {plan_next("end_of_header", [])}
  define.(:body) {|chunk| plan_next("body", [hex(chunk)])}
  define.(:end_of_message) {plan_next("end_of_message", [])}
  define.(:abort) {|state| note("abort")}
  define.(:finished) {note("finished")}
end

class PartA < VerifSession
  def initialize(context) super(context, 0) end
end
class PartB < VerifSession
  def initialize(context) super(context, 1) end
end
class PartC < VerifSession
  def initialize(context) super(context, 2) end
end

command_line = Milter::Client::CommandLine.new(name: "ruby-milter")
command_line.run(ARGV) do |client, _options|
  client.on_reload do
    LOG.write(JSON.generate({"k" => nil, "p" => 0, "e" => "reload", "a" => [], "i" => 0, "pid" => $$}) + "\n")
  end
  # once the loop of a process runs its signal handlers are there
  ready = lambda do |event_loop|
    event_loop.add_idle do
      LOG.write(JSON.generate({"k" => nil, "p" => 0, "e" => "ready", "a" => [], "i" => 0, "pid" => $$}) + "\n")
      false
    end
  end
  ready.(client.event_loop) if client.n_workers.zero?
  client.signal_connect("worker-created") {|c| ready.(c.event_loop)}
  client.signal_connect("workers-created") {|c| ready.(c.event_loop)}
  n = PLAN["composite"]
  if n.zero?
    client.register(VerifSession)
  else
    client.register(Milter::Client::CompositeSession, [PartA, PartB, PartC][0, n])
  end
end
