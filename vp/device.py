"""A real ModelDevice talking to a simulated NETCONF session.

Nothing of the code under test (or of ncclient) is patched: the session object
receives the <rpc> text that ncclient sends and delivers an <rpc-reply>.
"""
import atexit
import os
import shutil
import tempfile
import threading

from lxml import etree
from ncclient.capabilities import Capabilities
from ncclient.devices.default import DefaultDeviceHandler
from ncclient.operations.rpc import RPCReplyListener  # noqa: F401

from .schema import NC_NS
from .data import render, Style, esc
from .server import Server, EditError

NCM = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
YANGLIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
BASE_CAPS = ['urn:ietf:params:netconf:base:1.0',
             'urn:ietf:params:netconf:base:1.1',
             'urn:ietf:params:netconf:capability:writable-running:1.0',
             'urn:ietf:params:netconf:capability:xpath:1.0']

_scratch = []


def scratch():
    d = tempfile.mkdtemp(prefix='ncdiff-vp-')
    _scratch.append((os.getpid(), d))
    return d


def cleanup():
    for pid, d in list(_scratch):
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
            _scratch.remove((pid, d))


atexit.register(cleanup)


class Session:
    """Simulated transport.  yang: {name: text}; schema/tree: datastore."""

    def __init__(self, caps, yang=None, schema=None, tree=None,
                 monitoring=None, yanglib=None, schema_faults=None):
        self._server_capabilities = Capabilities(caps)
        self._client_capabilities = Capabilities(BASE_CAPS)
        self.id = '1'
        self.connected = True
        self.can_pipeline = True
        self._listeners = set()
        self.lock = threading.Lock()
        self.log = []               # texts of rpc's received
        self.yang = yang or {}
        self.schema = schema
        self.tree = tree or []
        self.style = Style()
        self.data_xml = None        # verbatim content of the next <data>
        self.monitoring = monitoring  # list of names, 'error' or None
        self.yanglib = yanglib
        self.schema_faults = schema_faults or {}
        self.get_schema_count = {}
        self.server = Server(schema) if schema is not None else None

    @property
    def server_capabilities(self):
        return self._server_capabilities

    def get_listener_instance(self, cls):
        with self.lock:
            for x in self._listeners:
                if isinstance(x, cls):
                    return x
        return None

    def add_listener(self, x):
        with self.lock:
            self._listeners.add(x)

    def remove_listener(self, x):
        with self.lock:
            self._listeners.discard(x)

    def close(self):
        self.connected = False

    # -- wire ---------------------------------------------------------------
    def send(self, message):
        if isinstance(message, bytes):
            message = message.decode('utf-8')
        root = etree.XML(message.encode('utf-8'))
        with self.lock:
            self.log.append(message)
        mid = root.get('message-id')
        op = [c for c in root if isinstance(c.tag, str)][0]
        try:
            body = self.handle(op)
        except EditError as e:
            body = self.error('application', e.tag, str(e))
        raw = ('<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>'
               % (NC_NS, mid, body))
        for x in list(self._listeners):
            if isinstance(x, RPCReplyListener):
                x.callback(('{%s}rpc-reply' % NC_NS, {'message-id': mid}),
                           raw)

    @staticmethod
    def error(kind, tag, msg):
        return ('<rpc-error><error-type>%s</error-type><error-tag>%s'
                '</error-tag><error-severity>error</error-severity>'
                '<error-message>%s</error-message></rpc-error>'
                % (kind, tag, esc(msg)))

    def handle(self, op):
        name = etree.QName(op).localname
        if name == 'get-schema':
            ident = op.findtext('{%s}identifier' % NCM)
            with self.lock:
                self.get_schema_count[ident] = \
                    self.get_schema_count.get(ident, 0) + 1
            if ident in self.schema_faults or ident not in self.yang:
                return self.error('application', 'invalid-value',
                                  'no schema ' + str(ident))
            return '<data xmlns="%s">%s</data>' % (NCM, esc(self.yang[ident]))
        if name == 'get':
            f = op.find('{%s}filter' % NC_NS)
            if f is not None and len(f):
                if f[0].tag == '{%s}netconf-state' % NCM:
                    if self.monitoring == 'error' or self.monitoring is None:
                        return self.error('application',
                                          'operation-not-supported', 'no')
                    return ('<data><netconf-state xmlns="%s"><schemas>%s'
                            '</schemas></netconf-state></data>' % (
                                NCM, ''.join(
                                    '<schema><identifier>%s</identifier>'
                                    '<version>2024-01-01</version>'
                                    '<format>yang</format></schema>' % i
                                    for i in self.monitoring)))
                if f[0].tag == '{%s}modules-state' % YANGLIB:
                    if self.yanglib == 'error' or self.yanglib is None:
                        return self.error('application',
                                          'operation-not-supported', 'no')
                    return ('<data><modules-state xmlns="%s">%s'
                            '</modules-state></data>' % (
                                YANGLIB, ''.join(
                                    '<module><name>%s</name><revision/>'
                                    '</module>' % i for i in self.yanglib)))
            return self.data()
        if name == 'get-config':
            return self.data()
        if name == 'edit-config':
            cfg = op.find('{%s}config' % NC_NS)
            if cfg is not None and self.server is not None:
                self.tree = self.server.apply(self.tree, cfg)
            return '<ok/>'
        return '<ok/>'

    def data(self):
        if self.data_xml is not None:
            return '<data>%s</data>' % self.data_xml
        st = self.style
        s2 = Style(st.mode, st.alias, st.pretty, 'data', st.order, False,
                   True, st.iidq, st.iidws)
        return render(self.schema, self.tree, s2)


def capabilities(yang, extra=()):
    """hello capabilities that announce the modules (RFC 6020 5.6.4)"""
    return list(BASE_CAPS) + list(extra) + [
        'urn:x:%s?module=%s&revision=2024-01-01' % (n, n)
        for n in sorted(yang)]


def write_yang(yang, folder):
    for n, t in yang.items():
        with open(os.path.join(folder, n + '.yang'), 'w',
                  encoding='utf-8') as f:
            f.write(t)


def make_device(schema=None, yang=None, load=None, folder=None, caps=None,
                cls=None):
    """ModelDevice with the models loaded"""
    from ncdiff import manager as ncmanager
    yang = yang if yang is not None else schema.yang()
    folder = folder or scratch()
    write_yang(yang, folder)
    session = Session(caps or capabilities(yang), yang=yang, schema=schema)
    dev = (cls or ncmanager.ModelDevice)(session, DefaultDeviceHandler())
    dev.scan_models(folder=folder, download='ignore')
    if load is None:
        load = schema.models
    for m in load:
        dev.load_model(m)
    dev.vp_session = session
    dev.vp_folder = folder
    return dev
