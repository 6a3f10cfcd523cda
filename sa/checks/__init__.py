"""property id -> check"""
import importlib

TABLE = {
    'C01': 'effects', 'C02': 'effects', 'C03': 'effects', 'C04': 'files', 'C05': 'files', 'C06': 'files',
    'C07': 'errors', 'C08': 'options', 'C10': 'order', 'C11': 'calls', 'C28': 'calls', 'C12': 'lrgraph', 'C13': 'lrgraph', 'C15': 'text', 'C16': 'filters', 'C14': 'persist', 'C23': 'columns', 'C21': 'corpus', 'C09': 'roles', 'C19': 'limits', 'C20': 'lemmas', 'C17': 'tokens', 'C18': 'tags', 'C22': 'counts', 'C24': 'scores', 'C25': 'distances', 'C26': 'checkpoints',
}


def load(pid):
    m = importlib.import_module('.' + TABLE[pid], __name__)
    return getattr(m, pid.lower())
