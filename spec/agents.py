"""Pinentry: drivers and models.  Interpreted abstractly, never executed."""
from pgp.pinentry.getpass import GetPassPinentry
from pgp.pinentry.gpg_agent import GPGAgentPinentry


class Sock(object):
    """The connection to an agent that follows a script."""

    def __init__(self, greeting, reply, fault):
        self.inbox = greeting
        self.reply = reply
        self.fault = fault
        self.closed = False
        self.sent = b''
        self.count = 0

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True

    def close(self):
        self.closed = True

    def shutdown(self, how):
        pass

    def settimeout(self, value):
        pass

    def setblocking(self, value):
        pass

    def connect(self, address):
        if self.fault == 'connect':
            raise OSError('connect')

    def send(self, data):
        self.sendall(data)
        return len(data)

    def sendall(self, data, flags=0):
        if self.fault == 'send':
            raise OSError('send')
        self.sent = self.sent + data
        self.inbox = self.inbox + self.reply
        self.reply = b''

    def recv(self, size, flags=0):
        self.count = self.count + 1
        if self.fault == self.count:
            raise OSError('recv')
        data = self.inbox[:size]
        self.inbox = self.inbox[size:]
        return data


class Closing(object):

    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, a, b, c):
        self.thing.close()


def ask(cache_id, error_message, prompt, description, use_cache, no_ask,
        repeat):
    p = GPGAgentPinentry('pinentry', '/run/agent')
    return p.get_passphrase(prompt, error_message, description, cache_id,
                            use_cache, no_ask, False, repeat)


def forget(cache_id):
    p = GPGAgentPinentry('pinentry', '/run/agent')
    p.clear_passphrase(cache_id)


def prompt(repeat):
    return GetPassPinentry().get_passphrase(repeat=repeat, stream=None)


def again(first, second, clear, use1, use2, no_ask, same):
    p = GetPassPinentry()
    a = p.get_passphrase(cache_id=first, use_cache=use1, stream=None)
    if clear is not None:
        p.clear_passphrase(clear)
    if not same:
        p = GetPassPinentry()
    b = p.get_passphrase(cache_id=second, use_cache=use2, no_ask=no_ask,
                         stream=None)
    return a, b
