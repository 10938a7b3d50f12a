from . import search, token, pipeline, load, lexicon, api, pg, memory, digest, values, tools
TABLE = {
    'C01': search.c01,
    'C02': search.c02,
    'C03': pipeline.c03,
    'C04': pipeline.c04,
    'C05': token.c05,
    'C06': token.c06,
    'C07': token.c07,
    'C08': token.c08,
    'C09': token.c09,
    'C10': load.c10,
    'C11': load.c11,
    'C18': load.c18,
    'C19': search.c19,
    'C12': lexicon.c12,
    'C22': lexicon.c22,
    'C13': api.c13,
    'C16': api.c16,
    'C17': api.c17,
    'C20': api.c20,
    'C14': pg.c14,
    'C15': pg.c15,
    'C21': pg.c21,
    'C23': memory.c23,
    'C24': memory.c24,
    'C25': digest.c25,
    'C26': values.c26,
    'C27': values.c27,
    'C28': tools.c28,
}
