// Code generated by tools/alias; stands in for github.com/vultr/govultr.
package vgovultr

import real "github.com/vultr/govultr"

type API = real.API
type APIKey = real.APIKey
type APIService = real.APIService
type APIServiceHandler = real.APIServiceHandler
type Account = real.Account
type AccountService = real.AccountService
type AccountServiceHandler = real.AccountServiceHandler
type AppInfo = real.AppInfo
type Application = real.Application
type ApplicationService = real.ApplicationService
type ApplicationServiceHandler = real.ApplicationServiceHandler
type Backup = real.Backup
type BackupSchedule = real.BackupSchedule
type BackupService = real.BackupService
type BackupServiceHandler = real.BackupServiceHandler
type BareMetalPlan = real.BareMetalPlan
type BareMetalServer = real.BareMetalServer
type BareMetalServerIPV4 = real.BareMetalServerIPV4
type BareMetalServerIPV6 = real.BareMetalServerIPV6
type BareMetalServerOptions = real.BareMetalServerOptions
type BareMetalServerService = real.BareMetalServerService
type BareMetalServerServiceHandler = real.BareMetalServerServiceHandler
type BlockStorage = real.BlockStorage
type BlockStorageService = real.BlockStorageService
type BlockStorageServiceHandler = real.BlockStorageServiceHandler
type Client = real.Client
type DNSDomain = real.DNSDomain
type DNSDomainService = real.DNSDomainService
type DNSDomainServiceHandler = real.DNSDomainServiceHandler
type DNSRecord = real.DNSRecord
type DNSRecordService = real.DNSRecordService
type DNSRecordsServiceHandler = real.DNSRecordsServiceHandler
type FireWallGroupServiceHandler = real.FireWallGroupServiceHandler
type FireWallRuleService = real.FireWallRuleService
type FireWallRuleServiceHandler = real.FireWallRuleServiceHandler
type FirewallGroup = real.FirewallGroup
type FirewallGroupService = real.FirewallGroupService
type FirewallRule = real.FirewallRule
type ForwardingRule = real.ForwardingRule
type ForwardingRules = real.ForwardingRules
type GenericInfo = real.GenericInfo
type HealthCheck = real.HealthCheck
type IP = real.IP
type IPV4 = real.IPV4
type IPV6 = real.IPV6
type ISO = real.ISO
type ISOService = real.ISOService
type ISOServiceHandler = real.ISOServiceHandler
type InstanceList = real.InstanceList
type LBConfig = real.LBConfig
type LoadBalancerHandler = real.LoadBalancerHandler
type LoadBalancerService = real.LoadBalancerService
type LoadBalancers = real.LoadBalancers
type Network = real.Network
type NetworkService = real.NetworkService
type NetworkServiceHandler = real.NetworkServiceHandler
type OS = real.OS
type OSService = real.OSService
type OSServiceHandler = real.OSServiceHandler
type ObjectListOptions = real.ObjectListOptions
type ObjectStorage = real.ObjectStorage
type ObjectStorageCluster = real.ObjectStorageCluster
type ObjectStorageService = real.ObjectStorageService
type ObjectStorageServiceHandler = real.ObjectStorageServiceHandler
type Plan = real.Plan
type PlanService = real.PlanService
type PlanServiceHandler = real.PlanServiceHandler
type PrivateNetwork = real.PrivateNetwork
type PublicISO = real.PublicISO
type Region = real.Region
type RegionService = real.RegionService
type RegionServiceHandler = real.RegionServiceHandler
type RequestCompletionCallback = real.RequestCompletionCallback
type ReservedIP = real.ReservedIP
type ReservedIPService = real.ReservedIPService
type ReservedIPServiceHandler = real.ReservedIPServiceHandler
type ReverseIPV6 = real.ReverseIPV6
type S3Keys = real.S3Keys
type SSHKey = real.SSHKey
type SSHKeyService = real.SSHKeyService
type SSHKeyServiceHandler = real.SSHKeyServiceHandler
type SSL = real.SSL
type Server = real.Server
type ServerIso = real.ServerIso
type ServerOptions = real.ServerOptions
type ServerService = real.ServerService
type ServerServiceHandler = real.ServerServiceHandler
type Snapshot = real.Snapshot
type SnapshotService = real.SnapshotService
type SnapshotServiceHandler = real.SnapshotServiceHandler
type Snapshots = real.Snapshots
type Soa = real.Soa
type StartupScript = real.StartupScript
type StartupScriptService = real.StartupScriptService
type StartupScriptServiceHandler = real.StartupScriptServiceHandler
type StickySessions = real.StickySessions
type User = real.User
type UserData = real.UserData
type UserService = real.UserService
type UserServiceHandler = real.UserServiceHandler
type V6Network = real.V6Network
type VCPlan = real.VCPlan
