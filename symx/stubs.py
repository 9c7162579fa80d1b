"""Stand-ins for serial and socket.  What a port or connection does is decided by the harness
(install()); no real device, network or serial line is ever touched."""
import socket as _socket
import ssl as _ssl
import types


class State(object):
    serial = None
    socket = None
    tls = None
    slept = []


state = State()


def install(serial=None, socket=None, tls=None):
    state.serial = serial
    state.socket = socket
    state.tls = tls
    state.slept = []


def sleep(s):
    state.slept.append(s)


class Serial(object):
    def __new__(cls, *a, **k):
        if state.serial is None:
            raise SerialException('no serial ports in this environment')
        return state.serial(*a, **k)


class SerialException(IOError):
    pass


class SerialTimeoutException(SerialException):
    pass


def make_serial():
    m = types.ModuleType('serial')
    m.Serial = Serial
    m.SerialException = SerialException
    m.SerialTimeoutException = SerialTimeoutException
    m.PARITY_NONE, m.PARITY_EVEN, m.PARITY_ODD = 'N', 'E', 'O'
    m.STOPBITS_ONE, m.STOPBITS_TWO = 1, 2
    m.EIGHTBITS, m.SEVENBITS = 8, 7
    m.VERSION = '3.5'
    return m


class Sock(object):
    def __new__(cls, *a, **k):
        if state.socket is None:
            raise OSError('no network in this environment')
        return state.socket()


def create_connection(address, timeout=None, source_address=None, **k):
    s = Sock()
    try:
        if timeout is not None:
            s.settimeout(timeout)
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


def make_socket():
    m = types.ModuleType('socket')
    for k, v in _socket.__dict__.items():
        if not k.startswith('__'):
            m.__dict__[k] = v
    m.socket = Sock
    m.create_connection = create_connection
    return m



class SSLContext(object):
    """The settings of a TLS context, with the defaults and rules of the ssl module; what a handshake
    does with them is decided by the harness (state.tls)."""

    def __init__(self, protocol=None, *a, **k):
        client = protocol == _ssl.PROTOCOL_TLS_CLIENT
        self.protocol = protocol
        self.verify = _ssl.CERT_REQUIRED if client else _ssl.CERT_NONE
        self.hostname = client
        self.cas = []
        self.chain = None
        self.options = 0
        self.minimum_version = self.maximum_version = None

    @property
    def check_hostname(self):
        return self.hostname

    @check_hostname.setter
    def check_hostname(self, v):
        if v:
            self.hostname = True
            if self.verify == _ssl.CERT_NONE:
                self.verify = _ssl.CERT_REQUIRED
        else:
            self.hostname = False

    @property
    def verify_mode(self):
        return self.verify

    @verify_mode.setter
    def verify_mode(self, v):
        if v == _ssl.CERT_NONE and self.hostname:
            raise ValueError('Cannot set verify_mode to CERT_NONE when check_hostname is enabled.')
        self.verify = v

    def _event(self, kind, *a):
        if state.tls is None:
            raise OSError('no network in this environment')
        return state.tls(kind, self, *a)

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        if cafile is None and capath is None and cadata is None:
            raise TypeError('cafile, capath and cadata cannot be all omitted')
        self._event('ca', cafile)
        self.cas = self.cas + [cafile]

    def load_default_certs(self, purpose=None):
        self.cas = self.cas + [None]

    set_default_verify_paths = load_default_certs

    def load_cert_chain(self, certfile=None, keyfile=None, password=None):
        if certfile is None:
            raise TypeError('certfile should be a valid filesystem path')
        self._event('chain', certfile, keyfile)
        self.chain = (certfile, keyfile)

    def set_ciphers(self, c):
        pass

    def set_alpn_protocols(self, c):
        pass

    def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True, server_hostname=None, session=None):
        if server_side:
            raise OSError('a server handshake with a server')
        if self.hostname and not server_hostname:
            raise ValueError('check_hostname requires server_hostname')
        return self._event('wrap', sock, server_hostname)


def create_default_context(purpose=_ssl.Purpose.SERVER_AUTH, cafile=None, capath=None, cadata=None):
    c = SSLContext(_ssl.PROTOCOL_TLS_CLIENT if purpose == _ssl.Purpose.SERVER_AUTH else _ssl.PROTOCOL_TLS_SERVER)
    if cafile is not None or capath is not None or cadata is not None:
        c.load_verify_locations(cafile, capath, cadata)
    elif c.verify != _ssl.CERT_NONE:
        c.load_default_certs(purpose)
    return c


def unverified_context(protocol=None, *a, **k):
    c = SSLContext(None)
    if k.get('cafile') is not None:
        c.load_verify_locations(k['cafile'])
    if k.get('certfile') is not None:
        c.load_cert_chain(k['certfile'], k.get('keyfile'))
    return c


def make_ssl():
    m = types.ModuleType('ssl')
    for k, v in _ssl.__dict__.items():
        if not k.startswith('__'):
            m.__dict__[k] = v
    m.SSLContext = SSLContext
    m.create_default_context = create_default_context
    m._create_unverified_context = m._create_stdlib_context = unverified_context
    m._create_default_https_context = create_default_context
    return m


STUBS = {'serial': make_serial(), 'socket': make_socket(), 'ssl': make_ssl()}
