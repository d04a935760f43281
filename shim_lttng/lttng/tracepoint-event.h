// see tracepoint.h
