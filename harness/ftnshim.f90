! Calls every routine of EnGPar's Fortran interface, positionally, as a Fortran program does.
module ftnshim
  use :: iso_c_binding
  use engpar
contains
  subroutine s_initialize() bind(C,name='ftn_initialize')
    call cengpar_initialize()
  end subroutine
  subroutine s_finalize() bind(C,name='ftn_finalize')
    call cengpar_finalize()
  end subroutine
  subroutine s_comm(comm) bind(C,name='ftn_setftncommunicator')
    integer(c_int), value :: comm
    call cengpar_setftncommunicator(comm)
  end subroutine
  function s_empty() bind(C,name='ftn_createEmptyGraph')
    type(c_ptr) :: s_empty
    s_empty = cengpar_createEmptyGraph()
  end function
  function s_local(graph,smallComm,largeComm,isOrig,splitFactor,tol,ranks,edgeType) bind(C,name='ftn_createLocalSplitInput')
    type(c_ptr) :: s_local
    type(c_ptr), value :: graph
    integer(c_int), value :: smallComm, largeComm, splitFactor
    logical(c_bool), value :: isOrig
    real(c_double), value :: tol
    integer(ENGPAR_PART_T), intent(in) :: ranks(splitFactor)
    integer(ENGPAR_EDGE_T), value :: edgeType
    s_local = cengpar_createLocalSplitInput(graph,smallComm,largeComm,isOrig,splitFactor,tol,ranks,edgeType)
  end function
  function s_global(graph,smallComm,largeComm,isOrig,tol,edgeType) bind(C,name='ftn_createGlobalSplitInput')
    type(c_ptr) :: s_global
    type(c_ptr), value :: graph
    integer(c_int), value :: smallComm, largeComm
    logical(c_bool), value :: isOrig
    real(c_double), value :: tol
    integer(ENGPAR_EDGE_T), value :: edgeType
    s_global = cengpar_createGlobalSplitInput(graph,smallComm,largeComm,isOrig,tol,edgeType)
  end function
  function s_diff(graph,stepfactor) bind(C,name='ftn_createDiffusiveInput')
    type(c_ptr) :: s_diff
    type(c_ptr), value :: graph
    real(c_double), value :: stepfactor
    s_diff = cengpar_createDiffusiveInput(graph,stepfactor)
  end function
  subroutine s_cut(input,factor) bind(C,name='ftn_setCutGrowthFactor')
    type(c_ptr), value :: input
    real(c_double), value :: factor
    call cengpar_setCutGrowthFactor(input,factor)
  end subroutine
  subroutine s_prio(input,etype,tol) bind(C,name='ftn_addPriority')
    type(c_ptr), value :: input
    integer(ENGPAR_EDGE_T), value :: etype
    real(c_double), value :: tol
    call cengpar_addPriority(input,etype,tol)
  end subroutine
  subroutine s_ghosts(input,enable) bind(C,name='ftn_balanceGhosts')
    type(c_ptr), value :: input
    logical(c_bool), value :: enable
    call cengpar_balanceGhosts(input,enable)
  end subroutine
  subroutine s_balance(input,verbosity) bind(C,name='ftn_balance')
    type(c_ptr), value :: input
    integer(c_int), value :: verbosity
    call cengpar_balance(input,verbosity)
  end subroutine
  subroutine s_load(graph,fileName) bind(C,name='ftn_loadFromFile')
    type(c_ptr), value :: graph
    character(c_char), intent(in) :: fileName(*)
    call cengpar_loadFromFile(graph,fileName)
  end subroutine
  subroutine s_save(graph,fileName) bind(C,name='ftn_saveToFile')
    type(c_ptr), value :: graph
    character(c_char), intent(in) :: fileName(*)
    call cengpar_saveToFile(graph,fileName)
  end subroutine
  subroutine s_eval(graph) bind(C,name='ftn_evaluatePartition')
    type(c_ptr), value :: graph
    call cengpar_evaluatePartition(graph)
  end subroutine
  subroutine s_split(input,splitMethod) bind(C,name='ftn_split')
    type(c_ptr), value :: input
    character(c_char), intent(in) :: splitMethod(*)
    call cengpar_split(input,splitMethod)
  end subroutine
  subroutine s_verts(graph,isHg,verts,weights,nverts) bind(C,name='ftn_constructVerts')
    type(c_ptr), value :: graph
    logical(c_bool), value :: isHg
    integer(c_int), value :: nverts
    integer(ENGPAR_GID_T), intent(in) :: verts(nverts)
    real(ENGPAR_WGT_T), intent(in) :: weights(nverts)
    call cengpar_constructVerts(graph,isHg,verts,weights,nverts)
  end subroutine
  function s_edges(graph,edges,degs,weights,pins,nedges,npins) bind(C,name='ftn_constructEdges')
    integer(ENGPAR_EDGE_T) :: s_edges
    type(c_ptr), value :: graph
    integer(c_int), value :: nedges, npins
    integer(ENGPAR_GID_T), intent(in) :: edges(nedges), pins(npins)
    integer(ENGPAR_LID_T), intent(in) :: degs(nedges)
    real(ENGPAR_WGT_T), intent(in) :: weights(nedges)
    s_edges = cengpar_constructEdges(graph,edges,degs,weights,pins,nedges,npins)
  end function
  subroutine s_gh(graph,verts,owners,nghosts) bind(C,name='ftn_constructGhosts')
    type(c_ptr), value :: graph
    integer(c_int), value :: nghosts
    integer(ENGPAR_GID_T), intent(in) :: verts(nghosts)
    integer(ENGPAR_PART_T), intent(in) :: owners(nghosts)
    call cengpar_constructGhosts(graph,verts,owners,nghosts)
  end subroutine
  subroutine s_valid(graph) bind(C,name='ftn_checkValidity')
    type(c_ptr), value :: graph
    call cengpar_checkValidity(graph)
  end subroutine
  subroutine s_destroy(graph) bind(C,name='ftn_destroyGraph')
    type(c_ptr), value :: graph
    call cengpar_destroyGraph(graph)
  end subroutine
  subroutine s_getpart(graph,verts,parts,nverts) bind(C,name='ftn_getPartition')
    type(c_ptr), value :: graph
    integer(c_int), value :: nverts
    integer(ENGPAR_GID_T) :: verts(nverts)
    integer(ENGPAR_PART_T) :: parts(nverts)
    call cengpar_getPartition(graph,verts,parts,nverts)
  end subroutine
end module
