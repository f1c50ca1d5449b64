import conc
import mapped
import queues
import seqs

CHECKS = {
    "C01": (queues.c01, "model_checking"),
    "C02": (queues.c02, "model_checking"),
    "C03": (queues.c03, "model_checking"),
    "C04": (queues.c04, "model_checking"),
    "C05": (queues.c05, "model_checking"),
    "C06": (queues.c06, "model_checking"),
    "C07": (queues.c07, "model_checking"),
    "C08": (conc.c08, "model_checking"),
    "C09": (conc.c09, "model_checking"),
    "C10": (conc.c10, "model_checking"),
    "C11": (conc.c11, "model_checking"),
    "C12": (conc.c12, "model_checking"),
    "C13": (conc.c13, "model_checking"),
    "C14": (mapped.c14, "model_checking"),
    "C15": (seqs.c15, "model_checking"),
    "C16": (seqs.c16, "model_checking"),
    "C17": (seqs.c17, "model_checking"),
    "C18": (seqs.c18, "model_checking"),
    "C19": (seqs.c19, "model_checking"),
    "C20": (seqs.c20, "model_checking"),
    "C21": (seqs.c21, "model_checking"),
    "C22": (seqs.c22, "model_checking"),
    "C23": (seqs.c23, "model_checking"),
    "C24": (seqs.c24, "model_checking"),
    "C25": (seqs.c25, "model_checking"),
    "C26": (seqs.c26, "model_checking"),
    "C27": (mapped.c27, "model_checking"),
    "C28": (mapped.c28, "model_checking"),
    "C29": (mapped.c29, "model_checking"),
    "C30": (mapped.c30, "model_checking"),
    "C31": (mapped.c31, "model_checking"),
    "C32": (mapped.c32, "model_checking"),
    "C33": (mapped.c33, "model_checking"),
    "C34": (mapped.c34, "model_checking"),
    "C35": (conc.c35, "model_checking"),
    "C36": (conc.c36, "model_checking"),
}
