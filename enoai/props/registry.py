"""Property id -> check."""
import os
import sys
from . import api
from . import backtrack
from . import client as cl
from . import doc
from . import history
from . import locale as loc
from . import lookup
from . import resolve
from . import report as rp
from ..report import VERIF


class P:
    def __init__(self, obligations, rule):
        self.obligations, self.rule = obligations, rule


PROPS = {
    'P01': P(doc.total_obs, 'no path of the parser ends in anything but a document or a ParseError, none is endless'),
    'P03': P(doc.position_obs, 'line numbers and ranges of every record equal the positions of the line parts'),
    'P04': P(doc.element_obs, 'element records of every path equal the reference reading'),
    'P05': P(doc.section_obs, 'section tree of every path equals the reference reading'),
    'P06': P(doc.comment_doc_obs, 'attached and unattached comments of every path equal the reference reading'),
    'P14': P(doc.misplaced_obs, 'error, arguments, selection and reported lines of every path equal the reference'),
    'P33': P(doc.block_obs, 'multiline records of every path equal the reference reading'),
    'P35': P(doc.line_obs, 'kind and parts of every line equal the reference expression'),
    'P07': P(api.value_obs, 'the composed value of every path equals the reference composition'),
    'P08': P(api.comment_obs, 'the composed comment of every path equals the reference composition'),
    'P09': P(resolve.copy_obs({'error', 'errpos', 'report', 'crash', 'endless'}),
             'outcome of every path is in the set of errors the document deserves, or success when that set is empty'),
    'P10': P(resolve.copy_obs({'content', 'crash', 'error'}), 'raw content of every path equals the reference view'),
    'P11': P(lambda t: api.single_obs(t) + api.entry_obs(t), 'accessor outcome equals the outcome table on every path'),
    'P12': P(api.plural_obs, 'accessor outcome equals the outcome table on every path'),
    'P13': P(api.key_obs, 'the key of every path is the key of the record'),
    'P15': P(lambda t: api.value_obs(t, True) + api.comment_obs(t, True) + api.key_obs(t, True),
             'loader call events and results on every path'),
    'P16': P(cl.cast_obs, 'conversion outcome equals the cast table on every path'),
    'P17': P(cl.touch_obs, 'client observations hold on every path'),
    'P18': P(cl.missing_obs, 'client observations hold on every path'),
    'P20': P(cl.error_obs, 'text, selection, cursor and reported elements of every error equal the error table'),
    'P21': P(rp.report_obs(('text', 'html', 'terminal'), {'rows', 'crash'}), 'rows of every report equal the reference rows on every path'),
    'P22': P(rp.report_obs(('html',), {'escape'}), 'every text of the document or the source that reaches the markup of a '
             'path has gone through escape'),
    'P23': P(loc.obs, 'every message asked for exists in every locale with the same parameters, all mentioned, as translated'),
    'P24': P(cl.registered_obs, 'registered accessors equal the general accessors with the same loader on every path'),
    'P25': P(lookup.obs, 'element and range of every lookup equal the reference on every path'),
    'P26': P(history.isolation_obs, 'every answer equals the answer given when nothing was read before'),
    'P27': P(history.repeat_obs, 'every answer equals the answer given by an untouched document'),
    'P28': P(cl.raw_obs, 'raw output equals the reference structure on every path'),
    'P29': P(lambda t: cl.parent_obs(t) + doc.parent_doc_obs(t), 'client observations hold, and recorded parents equal the '
             'reference reading, on every path'),
    'P30': P(cl.helper_obs, 'client observations hold on every path'),
    'P31': P(cl.repr_obs, 'the representation of every path equals the composed one'),
    'P32': P(backtrack.obs, 'no strongly connected component of the pair automaton joins a state with two ways back to it'),
    'P34': P(cl.required_obs, 'client observations hold on every path'),
}


def info(pid):
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    import data
    return next((p for p in data.PROPERTIES if p['id'] == pid), None)
