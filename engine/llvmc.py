"""Minimal ctypes binding of the LLVM-C API: loads bitcode / textual IR and
exposes just what the translator needs."""
import ctypes
import ctypes.util
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, \
    c_double, c_size_t, byref, POINTER

_paths = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.1',
          '/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1', 'libLLVM-18.so.1']
L = None
for _p in _paths:
    try:
        L = ctypes.CDLL(_p)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError('libLLVM-18 not found')


def F(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


V = c_void_p
CreateMB = F('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(V), POINTER(c_char_p))
ParseIR = F('LLVMParseIRInContext', c_int, V, V, POINTER(V), POINTER(c_char_p))
ContextCreate = F('LLVMContextCreate', V)
GetFirstFunction = F('LLVMGetFirstFunction', V, V)
GetNextFunction = F('LLVMGetNextFunction', V, V)
GetFirstGlobal = F('LLVMGetFirstGlobal', V, V)
GetNextGlobal = F('LLVMGetNextGlobal', V, V)
GetFirstGlobalAlias = F('LLVMGetFirstGlobalAlias', V, V)
GetNextGlobalAlias = F('LLVMGetNextGlobalAlias', V, V)
AliasGetAliasee = F('LLVMAliasGetAliasee', V, V)
_GetValueName = F('LLVMGetValueName2', c_void_p, V, POINTER(c_size_t))
IsDeclaration = F('LLVMIsDeclaration', c_int, V)
GetInitializer = F('LLVMGetInitializer', V, V)
GlobalGetValueType = F('LLVMGlobalGetValueType', V, V)
IsGlobalConstant = F('LLVMIsGlobalConstant', c_int, V)
CountParams = F('LLVMCountParams', c_uint, V)
GetParam = F('LLVMGetParam', V, V, c_uint)
GetFirstBB = F('LLVMGetFirstBasicBlock', V, V)
GetNextBB = F('LLVMGetNextBasicBlock', V, V)
GetFirstInst = F('LLVMGetFirstInstruction', V, V)
GetNextInst = F('LLVMGetNextInstruction', V, V)
GetOpcode = F('LLVMGetInstructionOpcode', c_int, V)
GetNumOperands = F('LLVMGetNumOperands', c_int, V)
GetOperand = F('LLVMGetOperand', V, V, c_uint)
TypeOf = F('LLVMTypeOf', V, V)
GetTypeKind = F('LLVMGetTypeKind', c_int, V)
GetIntWidth = F('LLVMGetIntTypeWidth', c_uint, V)
GetElementType = F('LLVMGetElementType', V, V)
GetArrayLength = F('LLVMGetArrayLength2', c_ulonglong, V)
GetVectorSize = F('LLVMGetVectorSize', c_uint, V)
CountStructElts = F('LLVMCountStructElementTypes', c_uint, V)
StructGetType = F('LLVMStructGetTypeAtIndex', V, V, c_uint)
GetValueKind = F('LLVMGetValueKind', c_int, V)
ConstIntZ = F('LLVMConstIntGetZExtValue', c_ulonglong, V)
ConstRealGetDouble = F('LLVMConstRealGetDouble', c_double, V, POINTER(c_int))
GetAggElt = F('LLVMGetAggregateElement', V, V, c_uint)
GetElementAsConstant = F('LLVMGetElementAsConstant', V, V, c_uint)
GetConstOpcode = F('LLVMGetConstOpcode', c_int, V)
IsNull = F('LLVMIsNull', c_int, V)
GetICmp = F('LLVMGetICmpPredicate', c_int, V)
GetFCmp = F('LLVMGetFCmpPredicate', c_int, V)
CountIncoming = F('LLVMCountIncoming', c_uint, V)
GetIncomingValue = F('LLVMGetIncomingValue', V, V, c_uint)
GetIncomingBlock = F('LLVMGetIncomingBlock', V, V, c_uint)
GetNumSuccessors = F('LLVMGetNumSuccessors', c_uint, V)
GetSuccessor = F('LLVMGetSuccessor', V, V, c_uint)
IsConditional = F('LLVMIsConditional', c_int, V)
GetCondition = F('LLVMGetCondition', V, V)
GetAllocatedType = F('LLVMGetAllocatedType', V, V)
GetCalledValue = F('LLVMGetCalledValue', V, V)
GetNumArgOperands = F('LLVMGetNumArgOperands', c_uint, V)
GetNormalDest = F('LLVMGetNormalDest', V, V)
GetUnwindDest = F('LLVMGetUnwindDest', V, V)
GetNumClauses = F('LLVMGetNumClauses', c_uint, V)
GetClause = F('LLVMGetClause', V, V, c_uint)
IsCleanup = F('LLVMIsCleanup', c_int, V)
GetGEPSource = F('LLVMGetGEPSourceElementType', V, V)
GetNumIndices = F('LLVMGetNumIndices', c_uint, V)
GetIndices = F('LLVMGetIndices', POINTER(c_uint), V)
GetModuleDataLayout = F('LLVMGetModuleDataLayout', V, V)
OffsetOfElement = F('LLVMOffsetOfElement', c_ulonglong, V, V, c_uint)
ABISize = F('LLVMABISizeOfType', c_ulonglong, V, V)
StoreSize = F('LLVMStoreSizeOfType', c_ulonglong, V, V)
_Print = F('LLVMPrintValueToString', c_void_p, V)
BasicBlockAsValue = F('LLVMBasicBlockAsValue', V, V)
GetNumMask = F('LLVMGetNumMaskElements', c_uint, V)
GetMaskValue = F('LLVMGetMaskValue', c_int, V, c_uint)
GetAtomicRMWBinOp = F('LLVMGetAtomicRMWBinOp', c_int, V)
GetSwitchDefault = F('LLVMGetSwitchDefaultDest', V, V)
GetCallAttr = F('LLVMGetCallSiteEnumAttribute', V, V, c_uint, c_uint)
GetEnumKind = F('LLVMGetEnumAttributeKindForName', c_uint, c_char_p, c_size_t)
GetAttrAtIndex = F('LLVMGetEnumAttributeAtIndex', V, V, c_uint, c_uint)
GetTypeAttr = F('LLVMGetTypeAttributeValue', V, V)
GetInstParent = F('LLVMGetInstructionParent', V, V)
GetBBParent = F('LLVMGetBasicBlockParent', V, V)
CountBBs = F('LLVMCountBasicBlocks', c_uint, V)
IsAInst = F('LLVMIsAInstruction', V, V)

BYVAL = GetEnumKind(b'byval', 5)

# type kinds
TVOID, THALF, TFLOAT, TDOUBLE, TFP80 = 0, 1, 2, 3, 4
TLABEL, TINT, TFUNC, TSTRUCT, TARRAY, TPTR, TVEC, TMETA = 7, 8, 9, 10, 11, 12, 13, 14
# value kinds (llvm-c LLVMValueKind)
VK = {}
for _i, _n in enumerate(['Argument', 'BasicBlock', 'MemoryUse', 'MemoryDef', 'MemoryPhi',
                         'Function', 'GlobalAlias', 'GlobalIFunc', 'GlobalVariable',
                         'BlockAddress', 'ConstantExpr', 'ConstantArray', 'ConstantStruct',
                         'ConstantVector', 'UndefValue', 'ConstantAggregateZero',
                         'ConstantDataArray', 'ConstantDataVector', 'ConstantInt', 'ConstantFP',
                         'ConstantPointerNull', 'ConstantTokenNone', 'MetadataAsValue',
                         'InlineAsm', 'Instruction', 'PoisonValue', 'ConstantTargetNone']):
    VK[_i] = _n

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       60: 'addrspacecast', 66: 'fneg', 68: 'freeze'}


def vname(v):
    n = c_size_t()
    p = _GetValueName(v, byref(n))
    return ctypes.string_at(p, n.value).decode()


def vprint(v):
    p = _Print(v)
    return ctypes.string_at(p).decode()


def load(path):
    ctx = ContextCreate()
    mb, err, mod = V(), c_char_p(), V()
    if CreateMB(path.encode(), byref(mb), byref(err)):
        raise RuntimeError('cannot read %s: %s' % (path, err.value))
    if ParseIR(ctx, mb, byref(mod), byref(err)):
        raise RuntimeError('cannot parse %s: %s' % (path, err.value))
    return mod
