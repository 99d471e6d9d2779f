from .rules import definit, orderlaws, valuesem, ownership, containment, searching, proving, hidden, numbers, cursors, printing, looping, lifetimes, failing, nullness, refusing, naming, restoring, wellmade
TABLE = {'C01': definit.check, 'C02': orderlaws.check, 'C03': valuesem.check,
         'C12': ownership.check, 'C07': containment.check, 'C08': searching.check, 'C09': proving.check, 'C15': hidden.check,
         'C10': numbers.check, 'C04': cursors.check, 'C06': printing.check, 'C11': looping.check, 'C18': lifetimes.check, 'C26': failing.check, 'C13': nullness.check, 'C20': refusing.check, 'C17': naming.check, 'C16': restoring.check, 'C21': wellmade.check}


def run(prop):
    return TABLE[prop](prop)
